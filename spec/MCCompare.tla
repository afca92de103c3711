----------------------------- MODULE MCCompare -----------------------------
(***************************************************************************)
(* The order of nodes, declarations and document type definitions: every   *)
(* pair of short contents, as text, comment, CDATA, declaration and DTD,   *)
(* and as the name of an element (with and without other differences).     *)
(***************************************************************************)
EXTENDS Vec
CONSTANT Len2     \* contents of up to Len2 characters
Letters == << 65, 97, 98, 233, 55295, 57344, 65535, 65536, 119070, 32 >>
Contents == { [i \in 1..k |-> Letters[f[i]]] : f \in [1..2 -> 1..Len(Letters)], k \in 0..Len2 }
AllOf == SetToSeq(Contents)
VARIABLES this
Init == this \in 0..Len(AllOf) /\ this = 0
LeafCmp(k, a, b) == << [op |-> "build", t |-> 2, tree |-> [k |-> k, s |-> a]], [op |-> "build", t |-> 3, tree |-> [k |-> k, s |-> b]],
                       [op |-> "cmp", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>] >>
Pro(k, a, b) == << [op |-> "pro_cmp", k |-> k, a |-> a, b |-> b] >>
NameOf(a) == << 110 >> \o SelectSeq(a, LAMBDA c : c # 32 /\ c < 65535 /\ c # 57344)
Elems(a) == << E(NameOf(a), <<>>), E(NameOf(a), << T("x") >>), EN(NameOf(a), Some(S("p")), Some(S("u")), <<>>, <<>>) >>
ElemCmp(a, b) == Concat([i \in 1..9 |-> << [op |-> "build", t |-> 2, tree |-> Elems(a)[1 + ((i - 1) \div 3)]], [op |-> "build", t |-> 3, tree |-> Elems(b)[1 + ((i - 1) % 3)]],
                       [op |-> "cmp", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>], [op |-> "eq", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>] >>])
Next == /\ this < Len(AllOf) /\ this' = this + 1
        /\ LET a == AllOf[this + 1] IN
           EmitRun("res", <<>>, Concat([j \in 1..Len(AllOf) |-> LET b == AllOf[j] IN
             LeafCmp("t", a, b) \o LeafCmp("c", a, b) \o LeafCmp("d", a, b) \o Pro("decl", S("xml") \o a, S("xml") \o b) \o Pro("dtd", a, b)
             \o (IF j % 7 = this % 7 THEN ElemCmp(a, b) ELSE <<>>)]))
Spec == Init /\ [][Next]_this
(* the order is that of the UTF-8 encodings, and it is total and transitive *)
Encoded(c) ==
  CASE c < 128 -> << c >>
    [] c < 2048 -> << 192 + (c \div 64), 128 + (c % 64) >>
    [] c < 65536 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] OTHER -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
InBytes(s) == Concat([i \in 1..Len(s) |-> Encoded(s[i])])
ByBytes(a, b) ==
  LET x == InBytes(a)  y == InBytes(b)
  IN x # y /\ (\E i \in 0..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) :
        /\ SubSeq(x, 1, i) = SubSeq(y, 1, i)
        /\ \/ i = Len(x)
           \/ i < Len(x) /\ i < Len(y) /\ x[i + 1] < y[i + 1])
Ordered ==
  this > 0 => LET a == AllOf[this] IN
    \A b \in Contents :
      /\ TextLess(a, b) = ByBytes(a, b)
      /\ (TextOrder(a, b) = "lt") = (TextOrder(b, a) = "gt")
      /\ TextOrder(a, b) = "lt" => \A j \in 1..Len(AllOf) : j % 11 = this % 11 /\ TextOrder(b, AllOf[j]) = "lt" => TextOrder(a, AllOf[j]) = "lt"
=============================================================================

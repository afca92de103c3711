------------------------------ MODULE MCOrder ------------------------------
(* C13: every order of setting (and overwriting) up to Depth attributes;
   the output depends only on the resulting map.  Namespace declarations come
   first, the rest by name. *)
EXTENDS Vec
CONSTANTS Depth, NKeys
Keys == SubSeq(<< S("xmlns"), S("xmlns:p"), S("b"), S("a"), S("xmlns:b"), S("zz"), S("ab"), S("xmlnsx"), <<233>>, S("A") >>, 1, NKeys)
VARIABLES orderSet
Ev(i, v) == [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> Keys[i], val |-> <<48 + v>>]
Hist(o) == << [op |-> "build", t |-> 2, tree |-> E(S("r"), <<>>)] >> \o [i \in 1..Len(o) |-> Ev(o[i], i % 10)]
Init == orderSet = <<>>
Next == /\ Len(orderSet) < Depth
        /\ \E i \in 1..Len(Keys) :
             /\ orderSet' = Append(orderSet, i)
             /\ EmitRun("res", Hist(orderSet'), << [op |-> "ser", s |-> 2, path |-> <<>>, indent |-> <<>>] >>)
Spec == Init /\ [][Next]_orderSet
Final == RunAll(St0, Hist(orderSet)).sl[2][1]
(* the same attributes given to the constructor at once, in another order *)
LastVal(i) == LET js == { j \in 1..Len(orderSet) : orderSet[j] = i } IN <<48 + ((CHOOSE j \in js : \A m \in js : m <= j) % 10)>>
AtOnce == LET used == SetToSeq(ToSet(orderSet))
          IN [E(S("r"), <<>>) EXCEPT !.at = [i \in 1..Len(used) |-> <<Keys[used[i]], LastVal(used[i])>>]]
OrderFree == SerNode(Final, <<>>) = SerNode(Build(AtOnce), <<>>)
DeclsFirst == LET o == AttrOrder(Final.at)
              IN \A i, j \in 1..Len(o) : i < j =>
                   \/ IsNsAttr(o[i]) /\ ~IsNsAttr(o[j])
                   \/ IsNsAttr(o[i]) = IsNsAttr(o[j]) /\ TextLess(o[i][1], o[j][1])
=============================================================================

------------------------------ MODULE MCAttach ------------------------------
(***************************************************************************)
(* Attaching: every kind of parent (namespace declarations on two levels), *)
(* every kind of fresh subtree, every adding operation.  What the nodes    *)
(* end up with must be what writing the tree out and parsing it gives, and *)
(* the nodes that were there keep what they had.                           *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Rich         \* more heads below the attached element

PP == S("p")  QQ == S("q")  UU == S("u")  VV == S("v")  WW == S("w")
NsA == S("xmlns")  NsP == S("xmlns:p")
El(name, p, ns, at) == EN(name, p, ns, at, <<>>)
Ctx(name) == <<
  El(name, None, None, <<>>),
  El(name, None, Some(UU), <<>>),
  El(name, None, None, << <<NsP, VV>> >>),
  El(name, None, Some(UU), << <<NsP, VV>> >>),
  El(name, Some(PP), Some(VV), <<>>),
  El(name, Some(PP), Some(VV), << <<NsA, UU>> >>),
  El(name, Some(PP), None, << <<NsP, WW>> >>),
  El(name, None, Some(<<>>), <<>>),
  El(name, Some(QQ), None, <<>>) >>
Sub(name) == <<
  El(name, None, None, <<>>),
  El(name, None, Some(WW), <<>>),
  El(name, Some(PP), None, <<>>),
  El(name, Some(PP), Some(WW), <<>>),
  El(name, Some(QQ), None, <<>>),
  El(name, None, None, << <<NsP, WW>> >>),
  El(name, Some(PP), None, << <<NsA, WW>> >>) >>
Few == {1, 3, 6}
RootName == S("r")  MidName == S("m")  SubName == S("s")  LowName == S("l")  OldName == S("o")

VARIABLES outerKind, midKind, whereAt, finished
vars == <<outerKind, midKind, whereAt, finished>>

(* the tree before: root, in it an old sibling and mid, which has a child *)
Before == LET o == Ctx(RootName)[outerKind]
          IN IF midKind = 0 THEN [o EXCEPT !.ch = << El(OldName, Some(PP), None, <<>>) >>]
             ELSE [o EXCEPT !.ch = << El(OldName, None, None, <<>>),
                                      [Ctx(MidName)[midKind] EXCEPT !.ch = << El(OldName, None, None, <<>>) >>] >>]
Place == IF whereAt = 0 THEN <<>> ELSE <<2>>
Subtrees ==
  LET flat == Sub(SubName)
      deep == Concat([i \in 1..Len(flat) |->
                [j \in 1..Len(Sub(LowName)) |-> [flat[i] EXCEPT !.ch = << Sub(LowName)[j] >>]]])
      deeper == IF ~Rich THEN <<>>
                ELSE Concat([i \in 1..Len(deep) |-> [j \in 1..Len(flat) |->
                       [deep[i] EXCEPT !.ch[1].ch = << T("t"), [flat[j] EXCEPT !.n = S("z")] >>]]])
  IN flat \o deep \o deeper
Give(x, t) == [op |-> "build", t |-> t, tree |-> x]
Copy == [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3]
Ways(x, k) ==
  << << Give(x, 4), [op |-> "append", s |-> 3, path |-> Place, t |-> 4, boxed |-> k % 2 = 0] >>,
     << Give(x, 4), [op |-> "insert", s |-> 3, path |-> Place, t |-> 4, i |-> 0] >>,
     << Give(x, 4), Give(Subtrees[1 + (k % 7)], 5), [op |-> "append_all", s |-> 3, path |-> Place, ts |-> <<4, 5>>] >> >>
(* the parent as a constructor call that takes the subtree as a child *)
Made(x, k) ==
  LET o == Ctx(RootName)[outerKind]
      new == [op |-> "new", name |-> o.n, text |-> IF k % 3 = 0 THEN Some(S("txt")) ELSE None, at |-> o.at, ns |-> o.ns, prefix |-> o.p, kids |-> Some(<<4>>), t |-> 3]
  IN << << Give(x, 4), [op |-> "drop", t |-> 3], new >> >>
All(x, k) == Ways(x, k) \o (IF midKind = 0 THEN Made(x, k) ELSE <<>>)
Events == Concat([i \in 1..Len(Subtrees) |-> Concat([w \in 1..Len(All(Subtrees[i], i)) |-> <<Copy>> \o All(Subtrees[i], i)[w]])])

Init == outerKind \in 1..Len(Ctx(RootName)) /\ midKind \in 0..Len(Ctx(MidName)) /\ whereAt \in 0..(IF midKind = 0 THEN 0 ELSE 1) /\ finished = FALSE
Next == /\ ~finished /\ finished' = TRUE /\ UNCHANGED <<outerKind, midKind, whereAt>>
        /\ EmitRun("ns", << Give(Before, 2) >>, Events)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE NsTree(_)
NsTree(e) == [ns |-> e.ns, ch |-> LET es == SelectSeq(e.ch, IsElem) IN [i \in 1..Len(es) |-> NsTree(es[i])]]
Attached(w) == RunAll(St0, << Give(Before, 2), Copy >> \o w).sl[3][1]
CanRead(e) == e.p # None => e.ns # None
SubSet == { i \in 1..Len(Subtrees) : Rich \/ i % 3 # 2 }
AsIfParsed ==
  finished => \A i \in SubSet : \A w \in 1..Len(All(Subtrees[i], i)) :
    LET x == Attached(All(Subtrees[i], i)[w])
        r == ParseText(SerDoc(Doc(None, <<>>, x), <<>>))
    IN CanRead(x) => r.ok /\ NsTree(r.doc.root) = NsTree(x) /\ Scoped(x, <<>>)
RECURSIVE OldOnes(_)
OldOnes(e) == << [n |-> e.n, ns |-> e.ns] >> \o
  Concat([i \in 1..Len(e.ch) |-> IF IsElem(e.ch[i]) /\ e.ch[i].n \in {OldName, MidName} THEN OldOnes(e.ch[i]) ELSE <<>>])
OldKeep ==
  finished => \A i \in SubSet : \A w \in 1..3 : OldOnes(Attached(Ways(Subtrees[i], i)[w])) = OldOnes(Build(Before))
OwnKeep ==     \* an explicit namespace of the attached element stays
  finished => \A i \in SubSet :
    LET b == Build(Subtrees[i])
        kids == NodeAt(Attached(Ways(Subtrees[i], i)[1]), Place).ch
    IN b.ns # None => kids[Len(kids)].ns = b.ns
=============================================================================

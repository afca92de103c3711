------------------------------- MODULE MCMixed ------------------------------
(***************************************************************************)
(* Attaching among mixed content (C07): the parent already has texts,      *)
(* comments and elements, the nodes handed in are mixed too, and blank or  *)
(* adjacent texts vanish in the same call.  Every element handed in must   *)
(* still join the namespaces of the parent, and every other one keep its   *)
(* own.                                                                    *)
(***************************************************************************)
EXTENDS MCAttach
CONSTANTS Before1, Handed    \* lengths of the lists

VARIABLES old, blanked
xvars == <<outerKind, midKind, whereAt, finished, old, blanked>>
OldItems == << T("x"), C("c"), El(OldName, None, None, <<>>), El(OldName, Some(PP), None, <<>>) >>
NewItems == << T(" "), T("y"), C("c"), El(SubName, Some(PP), None, <<>>),
               [El(SubName, None, None, <<>>) EXCEPT !.ch = << T("z"), El(LowName, Some(PP), None, <<>>) >>] >>
OuterX == [Ctx(RootName)[outerKind] EXCEPT !.ch = [i \in 1..Len(old) |-> OldItems[old[i]]]]
BuiltX == Build(OuterX)
TextAt == { i \in 1..Len(BuiltX.ch) : IsText(BuiltX.ch[i]) }
(* a text that became blank through its own setter *)
Blank == IF blanked = 0 \/ blanked \notin TextAt THEN <<>>
         ELSE << [op |-> "set_content", s |-> 3, path |-> <<blanked>>, text |-> S(" ")] >>
Lists(n) == UNION { [1..j -> 1..Len(NewItems)] : j \in 1..n }
HandIn(l) == [i \in 1..Len(l) |-> Give(NewItems[l[i]], 3 + i)]
Slots3(l) == [i \in 1..Len(l) |-> 3 + i]
AllIn == Concat(LET ls == SetToSeq(Lists(Handed)) IN [i \in 1..Len(ls) |->
            << Copy >> \o Blank \o HandIn(ls[i]) \o << [op |-> "append_all", s |-> 3, path |-> <<>>, ts |-> Slots3(ls[i])] >>])
OneIn == Concat([k \in 1..Len(NewItems) |-> Concat([i \in 1..Len(BuiltX.ch) + 1 |->
            << Copy >> \o Blank \o << Give(NewItems[k], 4), [op |-> "insert", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 4] >>])])
(* constructors with text and children *)
NewIn == Concat(LET ls == SetToSeq(Lists(Handed)) IN [j \in 1..Len(ls) |->
            HandIn(ls[j]) \o << [op |-> "drop", t |-> 3],
               [op |-> "new", name |-> RootName, text |-> IF j % 2 = 0 THEN Some(S("t")) ELSE Some(S(" ")), at |-> Ctx(RootName)[outerKind].at,
                ns |-> Ctx(RootName)[outerKind].ns, prefix |-> Ctx(RootName)[outerKind].p, kids |-> Some(Slots3(ls[j])), t |-> 3] >>])
XInit == /\ outerKind \in {1, 2, 3, 4, 6} /\ midKind = 0 /\ whereAt = 0 /\ finished = FALSE
         /\ old \in UNION { [1..j -> 1..Len(OldItems)] : j \in 0..Before1 } /\ blanked \in 0..Before1
XNext == /\ ~finished /\ finished' = TRUE /\ UNCHANGED <<outerKind, midKind, whereAt, old, blanked>>
         /\ (blanked = 0 \/ blanked \in TextAt)
         /\ EmitRun("ns", << Give(OuterX, 2) >>, AllIn \o OneIn \o (IF old = <<>> THEN << Copy >> \o NewIn ELSE <<>>))
XSpec == XInit /\ [][XNext]_xvars

(* as if it had been written and read back *)
Result(l) == RunAll(St0, << Give(OuterX, 2), Copy >> \o HandIn(l) \o << [op |-> "append_all", s |-> 3, path |-> <<>>, ts |-> Slots3(l)] >>).sl[3][1]
MixedAsParsed ==
  finished /\ blanked = 0 => \A l \in Lists(2) :
    LET x == Result(l)
        r == ParseText(SerDoc(Doc(None, <<>>, x), <<>>))
    IN CanRead(x) => r.ok /\ NsTree(r.doc.root) = NsTree(x) /\ Scoped(x, <<>>)
=============================================================================

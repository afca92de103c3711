------------------------------- MODULE MCAttr -------------------------------
(***************************************************************************)
(* The attributes of one element, as a map: every reachable map over Keys  *)
(* and Vals, and every operation on it.  The element sits between          *)
(* siblings and has children, none of which may change.  expectMap is the  *)
(* textbook map (a function), kept separately from the specification's     *)
(* sorted sequence.                                                        *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS NKeys, NVals

Keys == SubSeq(<< S("k"), S("a:b"), S("xmlns:p"), <<233>>, S("xmlns"), S("k.2"), S("K") >>, 1, NKeys)
BadKeys == << S("1k"), <<>>, S("a b"), S(":k"), S("k="), S("-k") >>
Vals == SubSeq(<< S("v"), <<>>, <<60, 38, 62, 34, 39, 10>> >>, 1, NVals)
NA == S("a")
Host == E(S("top"), << EN(NA, None, None, <<<<S("k"), S("x")>>>>, <<>>),
                       E(S("r"), << T("t"), EN(NA, None, None, <<<<S("k"), S("y")>>>>, <<>>) >>), C("c") >>)
RP == <<2>>

(* close to a key of the map, but not it *)
Near == << S("b"), S("a:B"), S("B"), S("p"), S("xmlns:P"), S("xml:k"), S("k "), S(" k"), S("kk"), S("XMLNS"), S("xmlns:"), S("p:k"), <<201>>, S("k.2"), S("k.20") >>
VARIABLES model, steps, expectMap
vars == <<model, steps, expectMap>>
ViewMap == model
Do(ev, m) ==
  LET r == Apply(model, ev)
  IN /\ EmitStep("edit", steps, ev, r)
     /\ model' = r.st /\ steps' = Append(steps, ev) /\ expectMap' = m
Ev(op) == [op |-> op, s |-> 2, path |-> RP]
Look(op, key) == [op |-> op, s |-> 2, path |-> RP, key |-> key]
SetEv(key, val) == [op |-> "set_attr", s |-> 2, path |-> RP, key |-> key, val |-> val]

Init == LET b == [op |-> "build", t |-> 2, tree |-> Host]
        IN steps = <<b>> /\ model = Apply(St0, b).st /\ expectMap = [x \in {} |-> <<>>]
SetIt == \E k \in 1..NKeys, v \in 1..NVals : Do(SetEv(Keys[k], Vals[v]), [x \in DOMAIN expectMap \cup {Keys[k]} |-> IF x = Keys[k] THEN Vals[v] ELSE expectMap[x]])
SetBad == \E k \in 1..Len(BadKeys) : Do(SetEv(BadKeys[k], S("v")), expectMap)
DelIt == \E k \in 1..NKeys : Do(Look("remove_attr", Keys[k]), [x \in DOMAIN expectMap \ {Keys[k]} |-> expectMap[x]])
GetIt == \E k \in 1..NKeys : Do(Look("get_attr", Keys[k]), expectMap)
GetNear == \E k \in 1..Len(Near), o \in {"get_attr", "remove_attr"} :
  Near[k] \notin ToSet(Keys) /\ Do(Look(o, Near[k]), expectMap)
GetBad == \E k \in 1..Len(BadKeys), o \in {"get_attr", "remove_attr"} : Do(Look(o, BadKeys[k]), expectMap)
ClearIt == Do(Ev("clear_attrs"), [x \in {} |-> <<>>])
Next == SetIt \/ SetBad \/ DelIt \/ GetIt \/ GetBad \/ GetNear \/ ClearIt
Spec == Init /\ [][Next]_vars

At == NodeAt(model.sl[2][1], RP).at
MapAgrees == /\ { At[i][1] : i \in 1..Len(At) } = DOMAIN expectMap /\ Len(At) = Cardinality(DOMAIN expectMap)
             /\ \A i \in 1..Len(At) : expectMap[At[i][1]] = At[i][2]
OthersSame == Visible(PutAt(model.sl[2][1], RP, [NodeAt(model.sl[2][1], RP) EXCEPT !.at = <<>>])) = Visible(Build(Host))
=============================================================================

------------------------------- MODULE MCMove -------------------------------
(***************************************************************************)
(* Moving: a subtree is attached in one tree, taken out, attached in       *)
(* another one, and then given a fresh child.  Namespaces that were        *)
(* resolved stay; prefixes of what is attached later are those of the      *)
(* place where the subtree is now.                                         *)
(***************************************************************************)
EXTENDS MCAttach
CONSTANT Kinds       \* how many of the kinds of the second tree

VARIABLES sub, into, moved
mvars == <<outerKind, midKind, whereAt, finished, sub, into, moved>>

Movable == << El(SubName, None, None, <<>>), El(SubName, None, None, << <<NsP, WW>> >>), El(SubName, Some(PP), None, <<>>),
              El(SubName, Some(QQ), Some(WW), <<>>), El(SubName, None, Some(WW), <<>>) >>
Second == [Ctx(RootName)[into] EXCEPT !.ch = << El(OldName, None, None, <<>>), [Ctx(MidName)[1 + ((into * outerKind) % 9)] EXCEPT !.ch = <<>>] >>]
Fresh == << El(S("y"), Some(PP), None, <<>>), El(S("y"), None, None, <<>>), El(S("y"), Some(QQ), None, <<>>),
            El(S("y"), Some(PP), None, << <<NsP, UU>> >>) >>
(* tree 2: the first; tree 3: the second; the subtree has a child l *)
Setup == << Give([Ctx(RootName)[outerKind] EXCEPT !.ch = << El(OldName, None, None, <<>>) >>], 2),
            Give(Second, 3),
            Give([Movable[sub] EXCEPT !.ch = << El(LowName, IF whereAt = 0 THEN None ELSE Some(PP), None, <<>>) >>], 4),
            [op |-> "append", s |-> 2, path |-> <<>>, t |-> 4, boxed |-> FALSE],
            [op |-> IF sub % 2 = 0 THEN "remove" ELSE "remove_element", s |-> 2, path |-> <<>>, i |-> 1, t |-> 4] >>
Target2 == IF moved = 1 THEN <<>> ELSE <<2>>
Here == IF moved = 1 THEN <<3>> ELSE <<2, 1>>       \* where the subtree is then
Move == << [op |-> IF moved = 1 THEN "append" ELSE "insert", s |-> 3, path |-> Target2, t |-> 4, boxed |-> TRUE, i |-> 0] >>
After == Concat([k \in 1..Len(Fresh) |->
   << Give(Fresh[k], 5), [op |-> "append", s |-> 3, path |-> Here \o (IF k % 2 = 0 THEN <<1>> ELSE <<>>), t |-> 5, boxed |-> FALSE],
      Give(Fresh[k], 6), [op |-> "insert", s |-> 3, path |-> Here \o (IF k % 2 = 1 THEN <<1>> ELSE <<>>), t |-> 6, i |-> 0] >>])
(* the same while it belongs to no tree *)
Loose == << Give(Fresh[1], 5), [op |-> "append", s |-> 4, path |-> <<>>, t |-> 5, boxed |-> FALSE],
            Give(Fresh[2], 6), [op |-> "insert", s |-> 4, path |-> <<1>>, t |-> 6, i |-> 0] >>

MInit == /\ outerKind \in 1..Len(Ctx(RootName)) /\ into \in 1..Kinds /\ sub \in 1..Len(Movable)
         /\ moved \in {1, 2} /\ whereAt \in {0, 1} /\ midKind = 0 /\ finished = FALSE
MNext == /\ ~finished /\ finished' = TRUE /\ UNCHANGED <<outerKind, midKind, whereAt, sub, into, moved>>
         /\ EmitRun("ns", << >>, Setup \o Move \o After)
         /\ EmitRun("ns", << >>, Setup \o Loose \o Move \o After)
MSpec == MInit /\ [][MNext]_mvars

Moved == RunAll(St0, Setup \o Move \o After).sl[3][1]
(* what the prefix of an element means according to the attributes above it *)
RECURSIVE PrefixLexical(_, _)
PrefixLexical(e, scope) ==
  LET sc == Extend(scope, e.at)
  IN /\ e.n = S("y") /\ e.p # None => e.ns = MapGet(sc, e.p[1])
     /\ \A i \in 1..Len(e.ch) : IsElem(e.ch[i]) => PrefixLexical(e.ch[i], sc)
FreshLexical == finished => PrefixLexical(Moved, <<>>)
(* the namespaces the subtree had resolved before are still there *)
RECURSIVE Resolved(_, _)
Resolved(b, a) ==       \* before, after (which may have more children)
  /\ b.ns # None => a.ns = b.ns
  /\ LET ok(e) == e.n \notin {S("y")}
         bs == SelectSeq(b.ch, ok)  as == SelectSeq(a.ch, ok)
     IN Len(bs) = Len(as) /\ \A i \in 1..Len(bs) : Resolved(bs[i], as[i])
KeptResolved ==
  finished =>
    /\ Resolved(RunAll(St0, Setup).sl[4][1], NodeAt(Moved, Here))
    /\ RunAll(St0, Setup \o Move \o After).sl[2] = RunAll(St0, Setup).sl[2]
=============================================================================

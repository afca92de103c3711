------------------------------ MODULE MCAgain ------------------------------
(***************************************************************************)
(* C12 over histories: what is accepted must not depend on what was there  *)
(* or was accepted (or refused) before.  Every pair of names that are      *)
(* close to each other, given one after the other at every pair of entry   *)
(* points; every pair of contents, set one after the other.                *)
(***************************************************************************)
EXTENDS Vec
CONSTANT Stems

VARIABLES firstUse, secondUse, finished
vars == <<firstUse, secondUse, finished>>
Stem == << S("k"), S("xml:lang"), <<233, 98>>, S("K9.x-y"), S("xmlns:p") >>
Near(s) == << s, <<SP>> \o s, s \o <<SP>>, <<LF>> \o s, s \o <<160>>, S("1") \o s, S("-") \o s, s \o S("-"), <<COLON>> \o s, s \o <<COLON>>, s \o S("="), s \o S(">"), s \o s,
  SubSeq(s, 1, Len(s) - 1), SubSeq(s, 2, Len(s)), s \o S("/"), s \o S(" x"), S("'") \o s, S("&") \o s, S("<") \o s >>
AllNames == Concat([i \in 1..Stems |-> Near(Stem[i])])
PerStem == Len(Near(Stem[1]))
Parts == << S(""), S("-"), S("--"), S("-->"), S("->"), S(">"), S("]]"), S("]]>"), S("]>"), S("x"), S("x-->y"), S("a]]>b"), S("x-"), S("]]>x") >>

(* slot 2: <r old='v'><e/></r>; results of constructors go to slot 3 and are dropped *)
Host == EN(S("r"), None, None, << <<S("old"), S("v")>> >>, << E(S("e"), <<>>), C("c"), D("d") >>)
Made(name, p, at) == << [op |-> "new", name |-> name, text |-> None, at |-> at, ns |-> None, prefix |-> p, kids |-> None, t |-> 3] >>
Uses(s) ==
  << << [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> s, val |-> S("v")] >>,
     << [op |-> "set_attr", s |-> 2, path |-> <<1>>, key |-> s, val |-> S("w")] >>,
     Made(s, None, <<>>), Made(S("a"), None, << <<s, S("v")>> >>), Made(S("a"), Some(s), <<>>) >>
NUses == 5
Sets(p, s) == << [op |-> "set_content", s |-> 2, path |-> <<p>>, text |-> s] >>
Freed(evs, st) == IF evs[1].op = "new" /\ Apply(st, evs[1]).res.ok THEN evs \o << [op |-> "drop", t |-> 3] >> ELSE evs

(* a use is <<kind, entry point, string>> *)
NameUses == { <<"name", u, n>> : u \in 1..NUses, n \in 1..Len(AllNames) }
TextUses == { <<"text", p, n>> : p \in 2..3, n \in 1..Len(Parts) }
EventsOf(u, st) == IF u[1] = "name" THEN Freed(Uses(AllNames[u[3]])[u[2]], st) ELSE Sets(u[2], Parts[u[3]])
SameStem(a, b) == (a[3] - 1) \div PerStem = (b[3] - 1) \div PerStem
Start == << [op |-> "build", t |-> 2, tree |-> Host] >>

Init == firstUse \in NameUses \cup TextUses /\ secondUse = <<>> /\ finished = FALSE
(* one run per first use: each second use follows on a fresh host *)
Followers(a) == SetToSeq({ b \in (IF a[1] = "name" THEN NameUses ELSE TextUses) : (a[1] = "name" /\ SameStem(a, b)) \/ (a[1] = "text" /\ a[2] = b[2]) })
Next == /\ ~finished
        /\ \E b \in ToSet(Followers(firstUse)) :
             /\ secondUse' = b /\ finished' = TRUE /\ UNCHANGED firstUse
             /\ LET s0 == RunAll(St0, Start)
                    one == EventsOf(firstUse, s0)
                    s1 == RunAll(s0, one)
                IN EmitRun("guard", Start, one \o EventsOf(b, s1))
Spec == Init /\ [][Next]_vars

(* the second use is accepted or refused as if it were the first one *)
Alone ==
  finished =>
    LET s0 == RunAll(St0, Start)
        s1 == RunAll(s0, EventsOf(firstUse, s0))
        ev(st) == EventsOf(secondUse, st)[1]
    IN Apply(s1, ev(s1)).res.ok = Apply(s0, ev(s0)).res.ok
=============================================================================

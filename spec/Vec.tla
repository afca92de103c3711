-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Test vectors: every step of the bounded models is printed as one line   *)
(* of JSON (what led there, the event, what the specification says) and    *)
(* stepped through the real library by the replay harness.                 *)
(***************************************************************************)
EXTENDS Io, Json, IOUtils, FiniteSetsExt

Focus == IOEnv.KX_FOCUS

Slots(ev) ==
  { ev[f] : f \in DOMAIN ev \cap {"s", "t", "s2"} }
  \cup (IF "ts" \in DOMAIN ev THEN ToSet(ev.ts) ELSE {})
  \cup (IF "kids" \in DOMAIN ev /\ ev.kids # None THEN ToSet(ev.kids[1]) ELSE {})
  \cup (IF ev.op \in {"parse", "doc_new", "doc_full", "set_decl", "set_dtds", "set_dtd"} THEN {1} ELSE {})
PostOf(st, ev) ==
  LET ss == SetToSortSeq(Slots(ev), <)
  IN [i \in 1..Len(ss) |-> <<ss[i], LET o == st.sl[ss[i]] IN IF o = None THEN None ELSE Some(Visible(o[1]))>>]

(* cmp says what is compared, see harness/src/replay.rs *)
EmitRes(cmp, hist, ev, res) ==
  PrintT(ToJson([vec |-> TRUE, cmp |-> cmp, hist |-> hist, ev |-> ev, res |-> res]))
NSLOTS == 7
St0 == EmptySt(NSLOTS)
RunAll(st, evs) == FoldLeft(LAMBDA s, ev : Apply(s, ev).st, st, evs)

(* several steps after one another, all compared; pre is the state before them *)
Full(st) == LET used == SelectSeq([i \in 1..NSLOTS |-> i], LAMBDA i : st.sl[i] # None)
            IN [i \in 1..Len(used) |-> <<used[i], Some(Visible(st.sl[used[i]][1]))>>]
EmitStep(cmp, hist, ev, r) ==
  PrintT(ToJson([vec |-> TRUE, cmp |-> cmp, hist |-> hist, pre |-> Full(RunAll(St0, hist)), ev |-> ev, res |-> r.res,
                 post |-> PostOf(r.st, ev), doc |-> [decl |-> r.st.decl, dtds |-> r.st.dtds]]))
EmitRun(cmp, hist, evs) ==
  LET s0 == RunAll(St0, hist)
      go(a, ev) == LET r == Apply(a.st, ev)
                   IN [st |-> r.st, out |-> Append(a.out, [ev |-> ev, res |-> r.res, post |-> PostOf(r.st, ev),
                                                           doc |-> [decl |-> r.st.decl, dtds |-> r.st.dtds]])]
  IN PrintT(ToJson([vec |-> TRUE, cmp |-> cmp, hist |-> hist, pre |-> Full(s0),
                    evs |-> FoldLeft(go, [st |-> s0, out |-> <<>>], evs).out]))
(* what is told about a refused text: where (C19), and what kind of error (C21) *)
EmitWhy(hist, of) == EmitRes("why", hist, [op |-> "why", of |-> of], WhyOf(RunAll(St0, hist), of))
EmitFault(text) ==
  IF Focus = "C21" THEN LET ev == [op |-> "parse", text |-> text] IN WhyOf(St0, ev).ok \/ EmitWhy(<<>>, ev)
  ELSE LET l == Located(text) IN l.ok \/ EmitRes("where", <<>>, [op |-> "locate", text |-> text], l)
(* a session to be executed and recorded; the trace is then validated *)
EmitScript(evs) == PrintT(ToJson([script |-> TRUE, evs |-> evs]))

(* shorthands for trees to be built *)
E(n, ch) == [k |-> "e", n |-> n, p |-> None, ns |-> None, at |-> <<>>, ch |-> ch]
EN(n, p, ns, at, ch) == [k |-> "e", n |-> n, p |-> p, ns |-> ns, at |-> at, ch |-> ch]
T(s) == TextN(S(s))
C(s) == CommentN(S(s))
D(s) == CDataN(S(s))

(* laws about trees, used as invariants by several models *)
RECURSIVE AllNormal(_)
AllNormal(x) == IsElem(x) => TextNormal(x.ch) /\ \A i \in 1..Len(x.ch) : AllNormal(x.ch[i])
RECURSIVE NoEmptyText(_)
NoEmptyText(x) == IF IsElem(x) THEN \A i \in 1..Len(x.ch) : NoEmptyText(x.ch[i])
                  ELSE ~(IsText(x) /\ x.s = <<>>)
RECURSIVE KeepsKeys(_)
KeepsKeys(x) == IsElem(x) =>
  /\ \A i \in 1..Len(x.at) - 1 : TextLess(x.at[i][1], x.at[i + 1][1])
  /\ \A i \in 1..Len(x.ch) : KeepsKeys(x.ch[i])
(* everything a parsed document promises *)
ParsedLaws(doc) ==
  /\ AllNormal(doc.root) /\ NoEmptyText(doc.root) /\ KeepsKeys(doc.root)
  /\ Scoped(doc.root, <<>>)
  /\ Writable(doc)
  /\ RoundTripLaw(doc, TwoSpaces) /\ RoundTripLaw(doc, <<>>) /\ RoundTripLaw(doc, <<TAB>>)
=============================================================================

------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real library a         *)
(* behaviour of the specification?                                         *)
(*                                                                         *)
(* The trace is a sequence of sessions of API events, each with the result *)
(* the library gave and the visible state of the slots it concerns.  The   *)
(* specification takes the same step; the property in focus says which     *)
(* part of the outcome is compared (Judge):                                *)
(*   "ok"   the step is the specification's step                           *)
(*   "bad"  it differs in what the property is about: a violation          *)
(*   "off"  it differs elsewhere; the rest of the session is not judged    *)
(***************************************************************************)
EXTENDS Io, Json, IOUtils

Focus == IOEnv.KX_FOCUS
Log == ndJsonDeserialize(IOEnv.KX_TRACE)

VARIABLES logPos,      \* position in the log
          model,     \* state of the specification
          disk,     \* file system (C14)
          judging      \* is the session still being judged?
vars == <<logPos, model, disk, judging>>

-----------------------------------------------------------------------------
(* projections *)
RECURSIVE NoNs(_)
NoNs(x) == IF IsElem(x)
           THEN [k |-> "e", n |-> x.n, p |-> x.p, at |-> x.at,
                 ch |-> TLCEval([i \in 1..Len(x.ch) |-> NoNs(x.ch[i])])]
           ELSE x
RECURSIVE NsView(_)
NsView(x) == [n |-> x.n, p |-> x.p, ns |-> x.ns,
              ch |-> LET es == SelectSeq(x.ch, IsElem) IN TLCEval([i \in 1..Len(es) |-> NsView(es[i])])]
RECURSIVE Shape(_)
Shape(x) == [n |-> x.n, p |-> x.p,
             ch |-> LET es == SelectSeq(x.ch, IsElem) IN TLCEval([i \in 1..Len(es) |-> Shape(es[i])])]
RECURSIVE Normed(_)
Normed(x) == IF IsElem(x)
             THEN [k |-> "e", n |-> x.n, p |-> x.p, at |-> x.at,
                   ch |-> LET c == Cleanup(x.ch) IN TLCEval([i \in 1..Len(c) |-> Normed(c[i])])]
             ELSE x
RECURSIVE AllNormal(_)
AllNormal(x) == IsElem(x) => TextNormal(x.ch) /\ \A i \in 1..Len(x.ch) : AllNormal(x.ch[i])
RECURSIVE Parts(_)   \* texts aside, what is where; and all the text of each element
Parts(x) == IF IsElem(x)
            THEN LET cs == SelectSeq(x.ch, LAMBDA c : ~IsText(c))
                     ts == SelectSeq(x.ch, IsText)
                 IN [n |-> x.n, t |-> Concat([i \in 1..Len(ts) |-> ts[i].s]),
                     ch |-> TLCEval([i \in 1..Len(cs) |-> Parts(cs[i])])]
            ELSE x

Slot(s, p) == s[p[1]]
SlotVis(o) == IF o = None THEN None ELSE Some(Visible(o[1]))
OnSlots(post, P(_)) ==
  [i \in 1..Len(post) |-> IF post[i][2] = None THEN None
                          ELSE Some(P(post[i][2][1]))]
ElemSlots(post, P(_)) ==
  [i \in 1..Len(post) |-> IF post[i][2] = None \/ ~IsElem(post[i][2][1]) THEN None
                          ELSE Some(P(post[i][2][1]))]
Expect(s, post) == [i \in 1..Len(post) |-> <<post[i][1], SlotVis(s.sl[post[i][1]])>>]

Has(r, f) == f \in DOMAIN r
Clean(res) == ~Has(res, "panic") /\ ~Has(res, "bad")

ADDING  == {"new", "build", "append", "append_all", "insert", "set_text"}
PLACING == {"append", "append_all", "insert", "remove", "remove_element", "set_text", "clear_children"}
BULK    == {"remove_by", "remove_elements", "remove_by_name", "remove_all", "remove_all_elements"}
GUARDED == {"new", "leaf", "set_content", "set_attr"}
ATTROPS == {"set_attr", "remove_attr", "get_attr", "clear_attrs"}
IOOPS   == {"stream", "sink", "fs_reset", "fs_mk", "fs_write", "fs_read"}
LOCATES == {"locate"}
STRINGS == {"escape", "attr_escape", "text_escape", "unescape", "laws"}

Flag(viol, same) == IF viol THEN "bad" ELSE IF same THEN "ok" ELSE "off"

(* what each property says about a step that was not the expected one:
   a = actual, e = expected *)
Violates(ev, ares, apost, adoc, eres, epost, edoc, s) ==
  LET both(P(_)) == OnSlots(apost, P) # OnSlots(epost, P)
      okdiff == ares.ok # eres.ok
      broke  == ~Clean(ares)
      (* treated differently, although the same document without what the
         property is about is treated as specified *)
      refused == ev.op = "parse" /\ okdiff /\ Has(ev, "plain") /\ ares.plain = eres.plain
  IN CASE Focus = "C02" -> ev.op = "parse" /\ (broke \/ okdiff)
       [] Focus = "C03" -> ev.op = "parse" /\ (broke \/ (~okdiff /\ both(NoNs)))
       [] Focus = "C06" ->
            \/ ev.op = "parse" /\ ~okdiff /\ ElemSlots(apost, Shape) = ElemSlots(epost, Shape)
                               /\ ElemSlots(apost, NsView) # ElemSlots(epost, NsView)
            \/ ev.op = "names" /\ (broke \/ ares # eres)
            \/ ev.op = "parse" /\ (broke \/ (refused /\ eres.plain))
       [] Focus = "C07" ->
            /\ ev.op \in ADDING
            /\ \/ broke
               \/ ~okdiff /\ ElemSlots(apost, Shape) = ElemSlots(epost, Shape)
                          /\ ElemSlots(apost, NsView) # ElemSlots(epost, NsView)
       [] Focus = "C08" -> ev.op \in PLACING /\ (broke \/ okdiff \/ both(Normed))
       [] Focus = "C09" ->
            /\ ev.op \in ADDING \cup {"parse", "concat"}
            /\ \/ broke
               \/ ~okdiff /\ OnSlots(apost, AllNormal) # OnSlots(epost, AllNormal)
               \/ ~okdiff /\ both(Parts)
       [] Focus = "C10" -> ev.op \in BULK /\ (broke \/ ares # eres \/ both(NoNs))
       [] Focus = "C11" ->
            /\ ev.op \in {"query", "mark"}
            /\ \/ broke \/ ~Has(ares, "v")
               \/ ~SameResult(ev.q, ares.v, eres.v)
               \/ apost # epost
       [] Focus = "C12" -> ev.op \in GUARDED /\ (broke \/ okdiff \/ (~eres.ok /\ apost # epost))
       [] Focus = "C13" -> ev.op \in {"ser", "doc_ser"} /\ (broke \/ ares # eres)
       [] Focus = "C15" ->
            \/ ev.op \in {"eq", "doc_eq"} /\ (broke \/ ares # eres)
            \/ ev.op = "clone" /\ (broke \/ apost # epost)
       [] Focus = "C16" ->
            \/ broke \/ (refused /\ eres.ok)
            \/ ev.op \in {"parse", "doc_new", "doc_full", "set_decl", "set_dtds", "set_dtd"}
               /\ ~okdiff /\ (adoc # edoc \/ (ev.op # "parse" /\ both(NoNs)))
            \/ ev.op \in {"decl_from_str", "dtd_from_string"} /\ ares.ok /\ ares # eres
            \/ ev.op = "decl_default" /\ ares # eres
            \/ ev.op = "doc_ser"
               /\ LET head == (IF s.decl = None THEN <<>> ELSE SerDecl(s.decl[1]) \o <<LF>>)
                              \o Concat([i \in 1..Len(s.dtds) |-> SerDtd(s.dtds[i]) \o <<LF>>])
                  IN ~StartsWith(ares.v, head \o <<LT>> \o TagName(s.sl[1][1]))
       [] Focus = "C17" -> ev.op \in {"kind", "text"} /\ (broke \/ ares # eres)
       [] Focus = "C20" -> ev.op \in {"cmp", "pro_cmp"} /\ (broke \/ ares # eres)
       [] Focus = "C18" -> ev.op \in ATTROPS /\ (broke \/ ares # eres \/ both(NoNs))
       [] OTHER -> FALSE

(* C15: nothing outside the slots of an event may change (clones are independent) *)
Touched(ev) ==
  { ev[f] : f \in DOMAIN ev \cap {"s", "t"} }
  \cup (IF Has(ev, "ts") THEN ToSet(ev.ts) ELSE {})
  \cup (IF Has(ev, "kids") /\ ev.kids # None THEN ToSet(ev.kids[1]) ELSE {})
  \cup (IF ev.op \in {"parse", "doc_new", "doc_full", "set_decl", "set_dtds", "set_dtd"} THEN {1} ELSE {})
Spill(ev, apost, epost) ==
  /\ Focus = "C15" /\ ev.op # "reset"
  /\ \E i \in 1..Len(apost) : apost[i][1] \notin Touched(ev) /\ apost[i] # epost[i]

JudgeStep(x, r) ==
  LET ev == x.ev
      epost == Expect(r.st, x.post)
      edoc  == [decl |-> r.st.decl, dtds |-> r.st.dtds]
      same  == /\ x.post = epost /\ x.doc = edoc /\ Clean(x.res)
               /\ \/ x.res = r.res
                  \/ ev.op = "query" /\ Has(x.res, "v") /\ x.res.ok = r.res.ok
                     /\ SameResult(ev.q, x.res.v, r.res.v)
  IN IF same THEN "ok"
     ELSE Flag(Violates(ev, x.res, x.post, x.doc, r.res, epost, edoc, model) \/ Spill(ev, x.post, epost), FALSE)

(* events that are judged by a law instead of by one expected result *)
JudgeLaw(x) ==
  LET ev == x.ev
      f  == x.ev.text
  IN CASE ~Clean(x.res) -> Flag(Focus \in {"C04", "C05", "C14"}, FALSE)
       [] ev.op = "unescape" -> Flag(Focus = "C05" /\ x.res.v # Unescape(f), x.res.v = Unescape(f))
       [] ev.op \in {"escape", "attr_escape"} ->
            Flag(Focus = "C05" /\ ~(CleanFull(x.res.v) /\ Unescape(x.res.v) = f), x.res.v = EscapeFull(f))
       [] ev.op = "text_escape" ->
            Flag(Focus = "C05" /\ ~(CleanText(x.res.v) /\ Unescape(x.res.v) = f), x.res.v = EscapeText(f))
       [] ev.op = "laws" -> Flag(Focus = "C05" /\ ~(x.res.v.f = f /\ x.res.v.a = f /\ x.res.v.t = f), TRUE)
JudgeRound(x) ==
  LET doc == CurDoc(model)
      all == [read |-> TRUE, eq |-> TRUE, vis |-> TRUE, same |-> TRUE]
  IN IF ~Clean(x.res) THEN Flag(Focus = "C04" /\ Writable(doc), FALSE)
     ELSE IF Writable(doc) THEN Flag(Focus = "C04" /\ x.res.v # all, x.res.v = all)
     ELSE "ok"
JudgeLocate(x) ==
  LET want == Located(x.ev.text)
  IN IF ~Clean(x.res) THEN Flag(Focus = "C19", FALSE)
     ELSE IF x.res.ok # want.ok THEN "off"
     ELSE IF want.ok THEN "ok"
     ELSE Flag(Focus = "C19" /\ ~LocatedWell(want, x.res), TRUE)
JudgeWhy(x) ==
  LET want == WhyOf(model, x.ev.of)
  IN IF ~Clean(x.res) THEN Flag(Focus = "C21", FALSE)
     ELSE IF x.res.ok # want.ok THEN "off"
     ELSE Flag(Focus = "C21" /\ ~ToldWell(want, x.res), TRUE)
JudgeIo(x) ==
  LET ev == x.ev
      now == ToSet(x.res.fs)
      w  == FsWrite(disk, ev.path, x.res.full)
  IN IF ~Clean(x.res) THEN Flag(Focus = "C14", FALSE)
     ELSE CASE ev.op = "stream" -> Flag(Focus = "C14" /\ ~StreamAgrees(ev.bytes, ev.fail, x.res), TRUE)
            [] ev.op = "sink" -> Flag(Focus = "C14" /\ ~SinkAgrees(ev.fail, x.res), TRUE)
            [] ev.op = "fs_write" -> Flag(Focus = "C14" /\ ~(x.res.ok = w.ok /\ now = w.fs), TRUE)
            [] ev.op = "fs_read" -> Flag(Focus = "C14" /\ ~(FsReadAgrees(disk, ev.path, x.res) /\ now = disk), TRUE)
            [] ev.op = "fs_reset" -> IF Assert(now = {}, "scratch file system not empty") THEN "ok" ELSE "off"
            [] OTHER -> IF Assert(now = FsMake(disk, ev.path, ev.kind, ev.bytes), "scratch file system") THEN "ok" ELSE "off"

(* C01: only that the call came back *)
JudgeAlive(x) == IF Has(x.res, "panic") THEN "bad" ELSE "ok"

-----------------------------------------------------------------------------
Init == logPos = 1 /\ model = EmptySt(7) /\ disk = {} /\ judging = TRUE

Say(x, what) == PrintT("KXBAD " \o ToJson([line |-> logPos, ev |-> x.ev, res |-> x.res, expected |-> what]))

IsEvent(ops) == logPos <= Len(Log) /\ Log[logPos].ev.op \in ops /\ ~Has(Log[logPos].res, "stale")

(* a violation blocks the log: the postcondition fails *)
Settle(x, verdict, what) ==
  /\ verdict = "bad" => Say(x, what) /\ FALSE
  /\ verdict = "off" => PrintT("KXOFF " \o ToJson([line |-> logPos, op |-> x.ev.op]))
  /\ logPos' = logPos + 1

Reset ==
  /\ IsEvent({"reset"})
  /\ model' = EmptySt(7) /\ judging' = TRUE /\ logPos' = logPos + 1 /\ UNCHANGED disk

Skip ==
  /\ logPos <= Len(Log) /\ ~judging /\ Log[logPos].ev.op # "reset"
  /\ logPos' = logPos + 1 /\ UNCHANGED <<model, disk, judging>>

(* a generated event addressed something an earlier difference took away *)
IsStale == logPos <= Len(Log) /\ Has(Log[logPos].res, "stale")
Stale == /\ judging /\ IsStale
         /\ judging' = FALSE /\ logPos' = logPos + 1 /\ UNCHANGED <<model, disk>>

Alive ==
  /\ Focus = "C01" /\ judging /\ logPos <= Len(Log) /\ Log[logPos].ev.op # "reset" /\ ~IsStale
  /\ Settle(Log[logPos], JudgeAlive(Log[logPos]), "a result")
  /\ UNCHANGED <<model, disk, judging>>

Strings ==
  /\ Focus # "C01" /\ judging /\ IsEvent(STRINGS)
  /\ LET v == JudgeLaw(Log[logPos]) IN Settle(Log[logPos], v, "escape laws") /\ judging' = (v = "ok")
  /\ UNCHANGED <<model, disk>>

Locate ==
  /\ Focus # "C01" /\ judging /\ IsEvent(LOCATES)
  /\ LET v == JudgeLocate(Log[logPos]) IN Settle(Log[logPos], v, Located(Log[logPos].ev.text)) /\ judging' = (v = "ok")
  /\ UNCHANGED <<model, disk>>

Why ==
  /\ Focus # "C01" /\ judging /\ IsEvent({"why"})
  /\ LET v == JudgeWhy(Log[logPos]) IN Settle(Log[logPos], v, WhyOf(model, Log[logPos].ev.of)) /\ judging' = (v = "ok")
  /\ UNCHANGED <<model, disk>>

Round ==
  /\ Focus # "C01" /\ judging /\ IsEvent({"roundtrip"})
  /\ LET v == JudgeRound(Log[logPos]) IN Settle(Log[logPos], v, "round trip") /\ judging' = (v = "ok")
  /\ UNCHANGED <<model, disk>>

InOut ==
  /\ Focus # "C01" /\ judging /\ IsEvent(IOOPS)
  /\ LET v == JudgeIo(Log[logPos]) IN Settle(Log[logPos], v, "input/output") /\ judging' = (v = "ok")
  /\ disk' = IF Has(Log[logPos].res, "fs") THEN ToSet(Log[logPos].res.fs) ELSE disk
  /\ UNCHANGED model

Call ==
  /\ Focus # "C01" /\ judging /\ logPos <= Len(Log) /\ ~IsStale
  /\ Log[logPos].ev.op \notin STRINGS \cup LOCATES \cup IOOPS \cup {"roundtrip", "reset", "why"}
  /\ LET x == Log[logPos]
         r == Apply(model, x.ev)
         v == JudgeStep(x, r)
     IN /\ Settle(x, v, [res |-> r.res, post |-> Expect(r.st, x.post),
                         doc |-> [decl |-> r.st.decl, dtds |-> r.st.dtds]])
        /\ model' = r.st
        /\ judging' = (v = "ok")
  /\ UNCHANGED disk

Next == Reset \/ Skip \/ Stale \/ Alive \/ Strings \/ Locate \/ Why \/ Round \/ InOut \/ Call
Spec == Init /\ [][Next]_vars

Accepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Log)
  \/ PrintT("KXREJECT " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================

--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Documents and the outside world: which documents can be written and     *)
(* read back (the round-trip law), readers and writers that deliver data   *)
(* in pieces or fail, and a file system.                                   *)
(***************************************************************************)
EXTENDS Api

(* ---------------------------------------------------------------------
   Lexical scoping, stated directly: the namespace of an element is the one
   its own or the nearest enclosing declaration gives.  scope maps prefixes
   to namespaces; the default namespace is bound to the empty prefix.      *)
DeclaredBy(at) ==
  LET own == OwnBindings(at)
  IN IF MapHas(at, XMLNS) THEN MapPut(own, <<>>, MapGet(at, XMLNS)[1]) ELSE own
Extend(scope, at) == FoldLeft(LAMBDA m, kv : MapPut(m, kv[1], kv[2]), scope, DeclaredBy(at))
LexicalNs(e, inner) == MapGet(inner, IF e.p = None THEN <<>> ELSE e.p[1])
RECURSIVE Scoped(_, _)
Scoped(e, scope) ==
  LET inner == TLCEval(Extend(scope, e.at))
  IN /\ e.ns = LexicalNs(e, inner)
     /\ \A i \in 1..Len(e.ch) : IsElem(e.ch[i]) => Scoped(e.ch[i], inner)

(* ---------------------------------------------------------------------
   Which documents survive being written and read back                     *)
NoColon(s) == FindChar(s, 1, COLON) = 0
NoOgham(s) == FindChar(s, 1, 5760) = 0    \* both a blank and a name character
RECURSIVE WritableNode(_)
WritableNode(x) ==
  CASE x.k = "t" -> ~IsBlank(x.s)
    [] x.k \in {"c", "d"} -> TRUE
    [] OTHER ->
         /\ IF x.p = None THEN NoColon(x.n) ELSE NoColon(x.p[1]) /\ NoOgham(x.p[1])
         /\ NoOgham(x.n) /\ \A i \in 1..Len(x.at) : NoOgham(x.at[i][1])
         /\ \A i \in 1..Len(x.ch) - 1 : ~(IsText(x.ch[i]) /\ IsText(x.ch[i + 1]))
         /\ \A i \in 1..Len(x.ch) : WritableNode(x.ch[i])
GoodDecl(d) ==
  LET s == SerDecl(d)  t == NextTag(s, 1)
  IN t.st = "tag" /\ t.s = 1 /\ t.e = Len(s) + 1 /\ StartsWith(s, P_XML)
GoodDtd(d) ==
  LET s == SerDtd(d)  t == NextTag(s, 1)
  IN t.st = "tag" /\ t.s = 1 /\ t.e = Len(s) + 1
Writable(doc) ==
  /\ WritableNode(doc.root)
  /\ Scoped(doc.root, <<>>)
  /\ doc.root.p # None => doc.root.ns # None
  /\ doc.decl # None => GoodDecl(doc.decl[1])
  /\ \A i \in 1..Len(doc.dtds) : GoodDtd(doc.dtds[i])

SameDoc(a, b) == a.decl = b.decl /\ a.dtds = b.dtds /\ Visible(a.root) = Visible(b.root)
(* the law itself: reading what was written *)
RoundTrip(doc, ind) ==
  LET s == SerDoc(doc, ind)
      r == ParseText(s)
  IN IF ~r.ok THEN [read |-> FALSE, eq |-> FALSE, vis |-> FALSE, same |-> FALSE]
     ELSE LET q == SameDoc(doc, r.doc)
          IN [read |-> TRUE, eq |-> q, vis |-> q, same |-> SerDoc(r.doc, ind) = s]
RoundTripLaw(doc, ind) ==
  Writable(doc) => RoundTrip(doc, ind) = [read |-> TRUE, eq |-> TRUE, vis |-> TRUE, same |-> TRUE]

(* ---------------------------------------------------------------------
   Bytes *)
Utf8Start == [need |-> 0, lo |-> 128, hi |-> 191, ok |-> TRUE]
Utf8Step(m, b) ==
  IF ~m.ok THEN m
  ELSE IF m.need > 0
    THEN IF b >= m.lo /\ b <= m.hi
         THEN [need |-> m.need - 1, lo |-> 128, hi |-> 191, ok |-> TRUE]
         ELSE [m EXCEPT !.ok = FALSE]
  ELSE CASE b < 128 -> m
         [] b >= 194 /\ b <= 223 -> [m EXCEPT !.need = 1]
         [] b = 224 -> [m EXCEPT !.need = 2, !.lo = 160]
         [] b = 237 -> [m EXCEPT !.need = 2, !.hi = 159]
         [] b >= 225 /\ b <= 239 -> [m EXCEPT !.need = 2]
         [] b = 240 -> [m EXCEPT !.need = 3, !.lo = 144]
         [] b = 244 -> [m EXCEPT !.need = 3, !.hi = 143]
         [] b >= 241 /\ b <= 243 -> [m EXCEPT !.need = 3]
         [] OTHER -> [m EXCEPT !.ok = FALSE]
ValidUtf8(bs) == LET m == FoldLeft(Utf8Step, Utf8Start, bs) IN m.ok /\ m.need = 0

(* A reader delivers bs in pieces and fails after fail[1] bytes, if it gets
   that far; the end of input is only seen by reading on. *)
ReaderFails(bs, fail) == fail # None /\ fail[1] <= Len(bs)
StreamOk(bs, fail) == ValidUtf8(bs) /\ ~ReaderFails(bs, fail)
(* what parse_stream may report, given what parse_str says of the same bytes *)
StreamAgrees(bs, fail, res) ==
  IF StreamOk(bs, fail) THEN res.ok = res.strok /\ (res.ok => res.same)
  ELSE ~res.ok

(* A writer accepts up to fail[1] bytes, then errors or accepts nothing *)
WriterFails(full, fail) == fail # None /\ fail[1] < full
SinkAgrees(fail, res) ==
  /\ res.prefix
  /\ res.ok <=> ~WriterFails(res.full, fail)
  /\ res.ok => res.n = res.full

(* ---------------------------------------------------------------------
   What kind of error a failing call returns (an event "why" holds another
   event, which is carried out on a copy).  kinds: the possible kinds; nums:
   the numbers an index error carries (index, lowest, number of places).    *)
IoKinds == << "Other", "UnexpectedEof", "BrokenPipe", "InvalidData", "WouldBlock", "ConnectionReset", "TimedOut", "PermissionDenied", "WriteZero", "StorageFull",
              "NotFound", "InvalidInput", "ConnectionAborted", "AlreadyExists", "Unsupported", "OutOfMemory", "NotConnected" >>
IoKind(ev) == "io:" \o IoKinds[1 + (ev.err % Len(IoKinds))]
Fine == [ok |-> TRUE, kinds |-> <<>>, nums |-> <<>>]
Fails(kinds) == [ok |-> FALSE, kinds |-> kinds, nums |-> <<>>]
ParseWhy(text) == IF ParseText(text).ok THEN Fine ELSE Fails(FaultKinds(text))
NewWhy(ev) ==
  LET badName == ~IsApiName(ev.name) \/ (ev.prefix # None /\ ~IsApiName(ev.prefix[1]))
      badAttr == \E i \in 1..Len(ev.at) : ~IsApiName(ev.at[i][1])
      kinds == (IF badName THEN <<"name">> ELSE <<>>) \o (IF badAttr THEN <<"attr">> ELSE <<>>)
  IN IF kinds = <<>> THEN Fine ELSE Fails(kinds)
IndexWhy(i, n, last) == IF i <= last THEN Fine ELSE [ok |-> FALSE, kinds |-> <<"index">>, nums |-> <<i, 0, n>>]
WhyOf(st, ev) ==
  CASE ev.op = "parse" -> ParseWhy(ev.text)
    [] ev.op = "new" -> NewWhy(ev)
    [] ev.op = "leaf" -> IF ContentOk(ev.k, ev.text) THEN Fine ELSE Fails(<<"content">>)
    [] ev.op = "set_content" -> IF ContentOk(Target(st, ev).k, ev.text) THEN Fine ELSE Fails(<<"content">>)
    [] ev.op = "set_attr" -> IF IsApiName(ev.key) THEN Fine ELSE Fails(<<"attr">>)
    [] ev.op = "insert" -> LET n == Len(Target(st, ev).ch) IN IndexWhy(ev.i, n, n)
    [] ev.op = "remove" -> LET n == Len(Target(st, ev).ch) IN IndexWhy(ev.i, n, n - 1)
    [] ev.op = "remove_element" -> LET n == Len(ElemIdx(Target(st, ev))) IN IndexWhy(ev.i, n, n - 1)
    [] ev.op = "cast" -> IF Target(st, ev).k = ev.k THEN Fine ELSE Fails(<<"cast">>)
    [] ev.op = "first" -> IF \E i \in 1..Len(Target(st, ev).ch) : IsElem(Target(st, ev).ch[i]) /\ Target(st, ev).ch[i].n = ev.name THEN Fine ELSE Fails(<<"missing">>)
    [] ev.op = "decl_from_str" -> IF DeclFromStr(ev.text) = None THEN Fails(<<"parse">>) ELSE Fine
    [] ev.op = "dtd_from_string" -> IF DtdFromString(ev.text) = None THEN Fails(<<"parse">>) ELSE Fine
    [] ev.op = "stream" ->     \* junk: the bytes end in the middle of a character
         LET bs == Utf8(ev.text) \o (IF ev.junk THEN <<195>> ELSE <<>>)
         IN IF ReaderFails(bs, ev.fail)
            THEN Fails(IF ValidUtf8(SubSeq(bs, 1, ev.fail[1])) THEN << IoKind(ev) >> ELSE << IoKind(ev), "io:InvalidData" >>)
            ELSE IF ev.junk THEN Fails(<<"io:InvalidData">>)
            ELSE ParseWhy(ev.text)
    [] ev.op = "sink" ->
         LET r == ParseText(ev.text)
         IN IF WriterFails(Len(Utf8(SerDoc(r.doc, TwoSpaces))), ev.fail) THEN Fails(<< IF ev.zero THEN "io:WriteZero" ELSE IoKind(ev) >>) ELSE Fine
    [] ev.op = "no_file" -> Fails(<<"io:NotFound">>)
ToldWell(want, got) ==
  /\ got.ok = want.ok
  /\ ~want.ok => /\ \E i \in 1..Len(want.kinds) : want.kinds[i] = got.kind
                 /\ got.nums = want.nums
                 /\ got.same

(* ---------------------------------------------------------------------
   A file system: a set of <<path, kind, bytes>>; kinds are "dir", "file"
   and "full" (a device on which every write fails).  <<>> is the root.     *)
FsKind(fs, p) ==
  IF p = <<>> THEN "dir"
  ELSE IF \E x \in fs : x[1] = p THEN (CHOOSE x \in fs : x[1] = p)[2] ELSE "none"
FsBytes(fs, p) == (CHOOSE x \in fs : x[1] = p)[3]
Parents(p) == { SubSeq(p, 1, i) : i \in 1..Len(p) - 1 }
Blocked(fs, p) == \E q \in Parents(p) : FsKind(fs, q) \in {"file", "full"}
MakeParents(fs, p) == fs \cup { <<q, "dir", <<>>>> : q \in { q \in Parents(p) : FsKind(fs, q) = "none" } }
FsPut(fs, p, kind, bs) == { x \in fs : x[1] # p } \cup { <<p, kind, bs>> }

(* write_to_filepath *)
FsWrite(fs, p, full) ==
  IF Blocked(fs, p) THEN [ok |-> FALSE, fs |-> fs]
  ELSE LET fs2 == MakeParents(fs, p)
       IN IF FsKind(fs, p) \in {"none", "file"}
          THEN [ok |-> TRUE, fs |-> FsPut(fs2, p, "file", full)]
          ELSE [ok |-> FALSE, fs |-> fs2]
FsReadable(fs, p) == ~Blocked(fs, p) /\ FsKind(fs, p) = "file" /\ ValidUtf8(FsBytes(fs, p))
FsReadAgrees(fs, p, res) ==
  IF FsReadable(fs, p) THEN res.ok = res.strok /\ (res.ok => res.same)
  ELSE ~res.ok
FsMake(fs, p, kind, bs) ==
  IF kind = "dir" THEN { x \in MakeParents(fs, p) : x[1] # p } \cup { <<p, "dir", <<>>>> }
  ELSE FsPut(fs, p, kind, bs)
=============================================================================

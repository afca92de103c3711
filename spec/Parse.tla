------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* The parser as a state machine.  A configuration m is                    *)
(*   pos    index of the first unread character                            *)
(*   phase  "prolog", "body", "done" or "err"                              *)
(*   first  no construct has been read yet                                 *)
(*   decl, dtds   what the prolog gave                                     *)
(*   stack  the open elements, outermost first (with children so far)      *)
(*   root   the root element once it is closed                             *)
(* Each step reads one construct (and the character data before it).       *)
(***************************************************************************)
EXTENDS Lex, Tree

PStart == [pos |-> 1, phase |-> "prolog", first |-> TRUE, decl |-> None,
           dtds |-> <<>>, stack |-> <<>>, root |-> None]

P_XMLDASH == S("<?xml-")
P_XML     == S("<?xml")
P_DOCTYPE == S("<!DOCTYPE")

PErr(m) == [m EXCEPT !.phase = "err"]
Top(m) == m.stack[Len(m.stack)]
SetTop(m, e) == [m EXCEPT !.stack[Len(m.stack)] = e]
Closed(m) == Len(m.stack) = 0

(* prefix and local part of a name as written; prefix None without colon *)
SplitName(nm) ==
  LET i == FindChar(nm, 1, COLON)
  IN IF i = 0 THEN [p |-> None, n |-> nm]
     ELSE [p |-> Some(SubSeq(nm, 1, i - 1)), n |-> SubSeq(nm, i + 1, Len(nm))]

(* The element a start tag denotes, in the scope of its parent (None: root).
   Result: None (not acceptable) or Some(element). *)
MakeElem(tag, parent) ==
  LET q  == SplitName(tag.name)
      at == MapOf([i \in 1..Len(tag.at) |-> <<tag.at[i][1], Unescape(tag.at[i][2])>>])
      e  == RawElem(q.n, at, None, q.p)
  IN IF \/ ~IsApiName(q.n)
        \/ q.p # None /\ ~IsApiName(q.p[1])
        \/ \E i \in 1..Len(at) : ~IsApiName(at[i][1])
        \/ parent = None /\ q.p # None /\ e.ns = None     \* undeclared prefix on the root
     THEN None
     ELSE IF parent = None THEN Some(e)
     ELSE Some(Adopt(e, Inheritable(parent[1]), parent[1].ctx))

(* --- the steps ------------------------------------------------------- *)

Advance(m, t) == [m EXCEPT !.pos = t.e, !.first = FALSE]

(* close the innermost open element *)
Pop(m) ==
  LET n == Len(m.stack)
  IN IF n = 1 THEN [m EXCEPT !.stack = <<>>, !.root = Some(m.stack[1])]
     ELSE [m EXCEPT !.stack = [SubSeq(m.stack, 1, n - 1) EXCEPT
                                 ![n - 1] = AppendTo(m.stack[n - 1], m.stack[n])]]
Push(m, e) == [m EXCEPT !.stack = Append(@, e)]

OpenElem(m, tag) ==
  LET r == MakeElem(tag, IF Closed(m) THEN None ELSE Some(Top(m)))
  IN IF r = None THEN PErr(m)
     ELSE IF tag.kind = "self" THEN Pop(Push(m, r[1])) ELSE Push(m, r[1])

PrologStep(text, m) ==
  LET t == NextTag(text, m.pos)
      slice == SubSeq(text, t.s, t.e - 1)
      tag == TagParse(slice)
  IN IF t.st # "tag" THEN PErr(m)                                  \* NoRoot
     ELSE IF ~IsBlank(SubSeq(text, m.pos, t.s - 1)) THEN PErr(m)   \* TextBeforeRoot
     ELSE CASE t.kind = "pi" /\ StartsWith(slice, P_XMLDASH) /\ ~m.first ->
                 Advance(m, t)                                     \* IgnoredPI
            [] t.kind = "pi" /\ StartsWith(slice, P_XML) ->
                 IF m.first                                        \* ReadDecl
                 THEN [Advance(m, t) EXCEPT !.decl = Some(SubSeq(slice, 3, Len(slice) - 2))]
                 ELSE PErr(m)
            [] t.kind = "comment" -> Advance(m, t)                 \* IgnoredComment
            [] t.kind = "markup" /\ StartsWith(slice, P_DOCTYPE) ->
                 [Advance(m, t) EXCEPT !.dtds = Append(@, SubSeq(slice, 10, Len(slice) - 1))]
            [] t.kind \in {"markup", "cdata"} -> Advance(m, t)     \* IgnoredMarkup
            [] OTHER ->
                 IF tag.kind \in {"open", "self"}                  \* ReadRoot
                 THEN OpenElem([Advance(m, t) EXCEPT !.phase = "body"], tag)
                 ELSE PErr(m)

(* character data between two constructs; a run that is blank as written is
   dropped. DEVIATION BlankRuns: this also holds inside mixed content. *)
ReadText(m, s) ==
  IF IsBlank(s) THEN m
  ELSE IF Closed(m) THEN PErr(m)                                   \* TextAfterRoot
  ELSE SetTop(m, AppendTo(Top(m), TextN(Unescape(s))))

EndOfInput(m, rest) ==
  IF Closed(m) /\ IsBlank(rest) THEN [m EXCEPT !.phase = "done"] ELSE PErr(m)

Construct(m, t, slice) ==
  LET tag == TagParse(slice)
  IN CASE t.kind = "comment" ->
            IF Closed(m) THEN m                                    \* IgnoredComment
            ELSE SetTop(m, AppendTo(Top(m), CommentN(SubSeq(slice, 5, Len(slice) - 3))))
       [] Closed(m) -> PErr(m)                                     \* AfterRoot
       [] t.kind = "cdata" ->
            SetTop(m, AppendTo(Top(m), CDataN(SubSeq(slice, 10, Len(slice) - 3))))
       [] t.kind \in {"markup", "pi"} -> PErr(m)                   \* Unsupported
       [] tag.kind = "close" ->
            IF tag.name = TagName(Top(m)) THEN Pop(m) ELSE PErr(m) \* Close / Mismatch
       [] tag.kind \in {"open", "self"} -> OpenElem(m, tag)        \* Open / SelfClose
       [] OTHER -> PErr(m)                                         \* BadTag

BodyStep(text, m) ==
  LET t == NextTag(text, m.pos)
  IN CASE t.st = "none" -> EndOfInput(m, SubSeq(text, m.pos, Len(text)))
       [] t.st = "open" -> PErr(m)
       [] OTHER ->
            LET m1 == ReadText(m, SubSeq(text, m.pos, t.s - 1))
            IN IF m1.phase = "err" THEN m1
               ELSE Construct(Advance(m1, t), t, SubSeq(text, t.s, t.e - 1))

PStep(text, m) == IF m.phase = "prolog" THEN PrologStep(text, m) ELSE BodyStep(text, m)

Halted(m) == m.phase \in {"done", "err"}

RECURSIVE PRun(_, _)
PRun(text, m) == IF Halted(m) THEN m ELSE PRun(text, PStep(text, m))

(* The result of parsing a text: [ok |-> FALSE], or the document *)
Doc(decl, dtds, root) == [decl |-> decl, dtds |-> dtds, root |-> root]
ParseText(text) ==
  LET m == PRun(text, PStart)
  IN IF m.phase = "done" THEN [ok |-> TRUE, doc |-> Doc(m.decl, m.dtds, m.root[1])]
     ELSE [ok |-> FALSE]

-----------------------------------------------------------------------------
(* Where a syntax error is reported.  The construct at fault is the first one
   the machine cannot take: a tag, comment, CDATA section, ... (named by the
   position of its '<'), or character data outside the root (named by the
   position behind the construct before it).  A fault may be of both kinds
   when misplaced text is followed by a misplaced construct.
   at: the positions that may be named; must: one has to be named (not for
   input that ends too early, nor for names refused by the element itself) *)
RECURSIVE LastLive(_, _)
LastLive(text, m) == LET nx == PStep(text, m) IN IF Halted(nx) THEN m ELSE LastLive(text, nx)
LineCol(text, i) ==
  LET before == SubSeq(text, 1, i - 1)
      nls == SelectSeq(before, LAMBDA c : c = LF)
      last == SelectLastInSeq(before, LAMBDA c : c = LF)
  IN <<Len(nls) + 1, i - last>>
FaultAt(text) ==
  LET m == LastLive(text, PStart)
      t == NextTag(text, m.pos)
      outside == (m.phase = "prolog" \/ Closed(m)) /\ ~IsBlank(SubSeq(text, m.pos, (IF t.st = "none" THEN Len(text) ELSE t.s - 1)))
      both == IF outside THEN <<LineCol(text, m.pos), LineCol(text, t.s)>> ELSE <<LineCol(text, t.s)>>
      tag == TagParse(SubSeq(text, t.s, t.e - 1))
      made == /\ t.kind \in {"elem", "close"} /\ tag.kind \in {"open", "self"}
              /\ (m.phase = "prolog" \/ ~Closed(m))      \* well written, refused by the element
  IN CASE t.st = "none" -> IF m.phase # "prolog" /\ outside THEN [must |-> TRUE, at |-> <<LineCol(text, m.pos)>>]
                           ELSE [must |-> FALSE, at |-> <<>>]
       [] t.st = "open" -> [must |-> TRUE, at |-> both]
       [] outside /\ t.kind = "comment" /\ m.phase # "prolog" -> [must |-> TRUE, at |-> <<LineCol(text, m.pos)>>]
       [] outside -> [must |-> TRUE, at |-> both]
       [] OTHER -> [must |-> ~made, at |-> both]
Located(text) ==
  IF ParseText(text).ok THEN [ok |-> TRUE, must |-> FALSE, at |-> <<>>]
  ELSE LET f == FaultAt(text) IN [ok |-> FALSE, must |-> f.must, at |-> f.at]
(* What kind of error a refused text gives.  Several kinds are possible where
   several things are wrong with one construct. *)
Refusals(tag, isRoot) ==
  LET q == SplitName(tag.name)
      at == MapOf([i \in 1..Len(tag.at) |-> <<tag.at[i][1], tag.at[i][2]>>])
      badName == ~IsApiName(q.n) \/ (q.p # None /\ ~IsApiName(q.p[1]))
      badAttr == \E i \in 1..Len(at) : ~IsApiName(at[i][1])
      unbound == isRoot /\ q.p # None /\ ~MapHas(at, S("xmlns:") \o q.p[1])
  IN (IF badName THEN <<"name">> ELSE <<>>) \o (IF badAttr THEN <<"attr">> ELSE <<>>) \o (IF unbound THEN <<"parse">> ELSE <<>>)
FaultKinds(text) ==
  LET m == LastLive(text, PStart)
      t == NextTag(text, m.pos)
      outside == (m.phase = "prolog" \/ Closed(m)) /\ ~IsBlank(SubSeq(text, m.pos, (IF t.st = "none" THEN Len(text) ELSE t.s - 1)))
      slice == SubSeq(text, t.s, t.e - 1)
      tag == TagParse(slice)
  IN CASE t.st # "tag" \/ outside -> <<"parse">>
       [] m.phase # "prolog" /\ Closed(m) -> <<"parse">>
       [] t.kind = "pi" -> IF StartsWith(slice, P_XML) THEN <<"parse">> ELSE <<"parse", "unsup">>
       [] t.kind = "markup" /\ m.phase # "prolog" -> <<"unsup">>
       [] tag.kind \in {"open", "self"} -> Refusals(tag, m.phase = "prolog")
       [] OTHER -> <<"parse">>

(* does what was reported (at: no or one position) fit? *)
LocatedWell(want, got) ==
  /\ got.at = <<>> => ~want.must
  /\ got.at # <<>> /\ want.at # <<>> => got.at[1] \in { want.at[i] : i \in 1..Len(want.at) }
=============================================================================

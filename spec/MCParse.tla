------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* All documents made of a context and up to Depth lexemes.  For lexemes   *)
(* whose boundaries cannot blur (class # "raw") acceptance and content are *)
(* also defined here, by a push-down recogniser over the lexemes that      *)
(* knows nothing of the parser; the two definitions must agree.            *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Depth, Alpha

L(s, c, x) == [s |-> S(s), c |-> c, x |-> x]
EA == E(S("a"), <<>>)
EB == [E(S("b"), <<>>) EXCEPT !.at = <<<<S("k"), S(">")>>>>]
Structural == <<
  L("<?xml?>", "decl", S("xml")), L("<?p?>", "bad", 0), L("<?xml-s?>", "xpi", S("xml-s")),
  L("<!DOCTYPE a>", "dtd", S(" a")), L("<!--c-->", "comment", CommentN(S("c"))), L(" ", "blank", 0),
  L("x", "text", S("x")), L("<a>", "open", EA), L("</a>", "close", S("a")), L("<b k='>'>", "open", EB),
  L("</b>", "close", S("b")), L("<a/>", "self", EA), L("<![CDATA[<a>]]>", "cdata", CDataN(S("<a>"))),
  L("<!x>", "markup", 0), L("<1>", "bad", 0),
  L("<", "raw", 0), L("\"", "raw", 0), L(">", "raw", 0), L("<!--", "raw", 0), L("]]>", "raw", 0),
  L("<a k=\">", "raw", 0), L("'/>", "raw", 0) >>
Content == <<
  L("<a>", "open", EA), L("</a>", "close", S("a")), L("<b k='>'>", "open", EB), L("</b >", "close", S("b")),
  L("<a />", "self", EA),
  L("<c x = \"1\" y='&lt;&quot;'/>", "self", [E(S("c"), <<>>) EXCEPT !.at = <<<<S("x"), S("1")>>, <<S("y"), S("<\"")>>>>]),
  L("x", "text", S("x")), L("&amp;lt;", "text", S("&lt;")), L("&#x20;", "text", S(" ")), L(" ", "blank", 0),
  L("&lt;a>", "text", S("<a>")),
  L("<!--x-->", "comment", CommentN(S("x"))), L("<!--<a>-- ->&amp;-->", "comment", CommentN(S("<a>-- ->&amp;"))),
  L("<!---->", "comment", CommentN(<<>>)),
  L("<![CDATA[x]]>", "cdata", CDataN(S("x"))), L("<![CDATA[]]]]>", "cdata", CDataN(S("]]"))),
  L("<![CDATA[&amp;</a>]]>", "cdata", CDataN(S("&amp;</a>"))) >>
Prologue == <<
  L("<?xml version='1.0'?>", "decl", S("xml version='1.0'")), L("<?xml x=\"?>\"?>", "decl", S("xml x=\"?>\"")),
  L("<?xml-stylesheet href='?>'?>", "xpi", S("xml-stylesheet href='?>'")),
  L("<!DOCTYPE a>", "dtd", S(" a")), L("<!DOCTYPE a [<!ELEMENT a (b)><!ENTITY g '>'>]>", "dtd", S(" a [<!ELEMENT a (b)><!ENTITY g '>'>]")),
  L("<!DOCTYPE '<' \">\" >", "dtd", S(" '<' \">\" ")),
  L("<!ELEMENT a (<b>)>", "markup", 0), L("<!--<?xml?>-->", "comment", CommentN(S("<?xml?>"))), L("<!---->", "comment", CommentN(<<>>)),
  L(" ", "blank", 0), L("<a/>", "self", EA), L("<a>", "open", EA), L("</a>", "close", S("a")), L("x", "text", S("x")),
  L("<![CDATA[x]]>", "cdata", CDataN(S("x"))), L("<?php ?>", "bad", 0) >>

Lexemes == CASE Alpha = "structural" -> Structural [] Alpha = "content" -> Content [] OTHER -> Prologue
\* contexts: sequences of lexeme positions the documents start with
Contexts ==
  CASE Alpha = "structural" -> { <<>>, <<8>>, <<8, 10>>, <<12>>, <<1, 4>>, <<8, 7>>, <<8, 12, 7>>, <<8, 9, 6>> }
    [] Alpha = "content" -> { <<1>>, <<1, 3>>, <<1, 7>>, <<1, 12, 7>> }
    [] OTHER -> { <<>> }
(* what is appended to a document to close it, so that content is reached *)
Closers == CASE Alpha = "content" -> << S("</a>"), S("</b></a>") >>
             [] OTHER -> << <<>> >>

VARIABLES lexemes, firstDoc      \* lexemes so far; result of parsing with the first closer
vars == <<lexemes, firstDoc>>

TextOfToks(ts) == Concat([i \in 1..Len(ts) |-> Lexemes[ts[i]].s])
Cmp == CASE Focus = "C01" -> "alive" [] Focus = "C02" -> "ok" [] Focus = "C03" -> "tree"
         [] Focus = "C06" -> "ns" [] Focus = "C16" -> "prolog" [] OTHER -> "full"
EmitParse(text) ==
  IF Focus \in {"C19", "C21"} THEN EmitFault(text)
  ELSE IF Cmp \in {"alive", "ok"}
  THEN EmitRes(Cmp, <<>>, [op |-> "parse", text |-> text], [ok |-> ParseText(text).ok])
  ELSE LET ev == [op |-> "parse", text |-> text] IN EmitStep(Cmp, <<>>, ev, Apply(St0, ev))

Init == /\ lexemes \in Contexts /\ firstDoc = ParseText(TextOfToks(lexemes) \o Closers[1])
Next == /\ Len(lexemes) < Depth + 3
        /\ \E i \in 1..Len(Lexemes) :
             /\ lexemes' = Append(lexemes, i)
             /\ \E n \in 0..Depth : \E c \in Contexts : Len(lexemes') = Len(c) + n /\ SubSeq(lexemes', 1, Len(c)) = c
             /\ firstDoc' = ParseText(TextOfToks(lexemes') \o Closers[1])
             /\ \A k \in 1..Len(Closers) : EmitParse(TextOfToks(lexemes') \o Closers[k])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The recogniser over lexemes.  m: [ok, st, decl, dtds, first, root, run]   *)
Fail(m) == [m EXCEPT !.ok = FALSE]
NewFrame(e) == [e |-> e, kids |-> <<>>]
RECURSIVE Closed2(_)
Closed2(f) == [f.e EXCEPT !.ch = f.kids]
Push2(m, e) == [m EXCEPT !.st = Append(@, NewFrame(e))]
AddKid(m, x) == [m EXCEPT !.st[Len(m.st)].kids = Append(@, x)]
Finish(m) ==    \* the innermost element is complete
  LET n == Len(m.st)  x == Closed2(m.st[n])  m2 == [m EXCEPT !.st = SubSeq(@, 1, n - 1)]
  IN IF n = 1 THEN [m2 EXCEPT !.root = Some(x)] ELSE AddKid(m2, x)
(* a run of character data ends: [raw blank?, decoded text] *)
Flush(m) ==
  IF m.run = <<>> THEN m
  ELSE LET blank == \A i \in 1..Len(m.run) : m.run[i].c = "blank"
           val == Concat([i \in 1..Len(m.run) |-> IF m.run[i].c = "blank" THEN <<SP>> ELSE m.run[i].x])
           m2 == [m EXCEPT !.run = <<>>]
       IN IF blank THEN m2
          ELSE IF Len(m.st) = 0 THEN Fail(m2)
          ELSE IF IsBlank(val) THEN m2 ELSE AddKid(m2, TextN(val))
Feed(m0, t) ==
  IF ~m0.ok THEN m0
  ELSE IF t.c \in {"text", "blank"} THEN [m0 EXCEPT !.run = Append(@, t)]
  ELSE LET blank1 == m0.run # <<>>
           m == Flush(m0)
           in == Len(m.st) > 0
           after == m.root # None
           first == m.first
           g == [m EXCEPT !.first = FALSE]
       IN IF ~m.ok THEN m
          ELSE CASE t.c = "decl" -> IF in \/ after \/ ~first THEN Fail(m) ELSE [g EXCEPT !.decl = Some(t.x)]
                 [] t.c = "xpi"  -> IF in \/ after THEN Fail(m)
                                    ELSE IF first THEN [g EXCEPT !.decl = Some(t.x)] ELSE g
                 [] t.c = "bad"  -> Fail(m)
                 [] t.c = "dtd"  -> IF in \/ after THEN Fail(m) ELSE [g EXCEPT !.dtds = Append(@, t.x)]
                 [] t.c = "markup" -> IF in \/ after THEN Fail(m) ELSE g
                 [] t.c = "cdata" -> IF in THEN AddKid(g, t.x) ELSE IF after THEN Fail(m) ELSE g
                 [] t.c = "comment" -> IF in THEN AddKid(g, t.x) ELSE g
                 [] t.c = "open" -> IF after THEN Fail(m) ELSE Push2(g, t.x)
                 [] t.c = "self" -> IF after THEN Fail(m) ELSE Finish(Push2(g, t.x))
                 [] t.c = "close" -> IF in /\ m.st[Len(m.st)].e.n = t.x THEN Finish(g) ELSE Fail(m)
Recognise(ts) ==
  Flush(FoldLeft(Feed, [ok |-> TRUE, st |-> <<>>, decl |-> None, dtds |-> <<>>, first |-> TRUE, root |-> None, run |-> <<>>],
                 [i \in 1..Len(ts) |-> Lexemes[ts[i]]]))
Unblurred == \A i \in 1..Len(lexemes) : Lexemes[lexemes[i]].c # "raw"
(* the lexemes of the closer, as positions in Content *)
WithCloser == IF Alpha = "content" THEN Append(lexemes, 2) ELSE lexemes
Agree ==
  Unblurred =>
    LET m == Recognise(WithCloser)
        accepted == m.ok /\ m.root # None /\ m.st = <<>>
    IN /\ firstDoc.ok = accepted
       /\ accepted => /\ Visible(firstDoc.doc.root) = m.root[1]
                      /\ firstDoc.doc.decl = m.decl /\ firstDoc.doc.dtds = m.dtds
DocLaws == firstDoc.ok => ParsedLaws(firstDoc.doc)
=============================================================================

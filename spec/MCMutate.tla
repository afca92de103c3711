------------------------------ MODULE MCMutate ------------------------------
(* (State variables are not named like bound identifiers elsewhere: TLC would
   then re-evaluate constants at every use.)
   Rich documents with one edit at every position: truncated there, one
   character dropped, one of Noise inserted, or two neighbours swapped. *)
EXTENDS Vec
CONSTANTS NDocs, Kinds     \* how many of the documents; whichDoc edits

Docs == <<
  S("<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY x '>'>]><!-- c --><a k='v' l = \"&lt;\"><b/>t&amp;t<c>u</c ></a>"),
  S("<a><!-- > --><![CDATA[ ]] > <a> ]]><b x='>'/><c y=\"/>\"></c>&#x41;&bad;</a> <!-- end -->"),
  S("<p:a xmlns:p='u' xmlns=\"v\"><p:b/><q:c xmlns:q='w'><whichDoc/></q:c></p:a>\n"),
  S(" <a>x<b>y</b>z</a> "),
  S("<!-- c --><!DOCTYPE a><?xml-stylesheet href='?>'?><!ELEMENT a (b)><a\t/>"),
  <<60, 233, 32, 954, 61, 39, 9731, 39, 62, 119070, 160, 60, 98, 47, 62, 12288, 60, 47, 233, 62>>,
  S("<a>]]>&#x3C;b&#x3E;&gt;</a>"),
  S("<a xmlns=''><a xmlns='u'><a/></a></a>") >>
Noise == << <<LT>>, <<GT>>, <<SLASH>>, <<QUOT>>, <<APOS>>, <<AMP>>, <<EQ>>, <<SP>>, <<DASH>>, <<BANG>>, <<QM>>, <<COLON>>, <<SEMI>>,
            <<RBRACK>>, <<233>>, <<65279>>, <<0>>, S("<!--"), S("-->"), S("<b>"), S("</b>"), S("<?x?>"), S("<![CDATA["), S("]]>") >>

Ins(t, editPos, x) == SubSeq(t, 1, editPos) \o x \o SubSeq(t, editPos + 1, Len(t))
Cut(t, editPos) == SubSeq(t, 1, editPos)
Drop(t, editPos) == SubSeq(t, 1, editPos - 1) \o SubSeq(t, editPos + 1, Len(t))
Swap(t, editPos) == [t EXCEPT ![editPos] = t[editPos + 1], ![editPos + 1] = t[editPos]]
Dup(t, editPos) == SubSeq(t, 1, editPos) \o SubSeq(t, editPos, Len(t))

VARIABLES whichDoc, editPos, finished
vars == <<whichDoc, editPos, finished>>
Cmp == CASE Focus = "C01" -> "alive" [] Focus = "C02" -> "ok" [] Focus = "C03" -> "tree"
         [] Focus = "C06" -> "ns" [] Focus = "C16" -> "prolog" [] OTHER -> "full"
EmitParse(text) ==
  IF Focus \in {"C19", "C21"} THEN EmitFault(text)
  ELSE IF Cmp \in {"alive", "ok"}
  THEN EmitRes(Cmp, <<>>, [op |-> "parse", text |-> text], [ok |-> ParseText(text).ok])
  ELSE LET ev == [op |-> "parse", text |-> text] IN EmitStep(Cmp, <<>>, ev, Apply(St0, ev))
Init == whichDoc \in 1..NDocs /\ editPos \in 0..Len(Docs[whichDoc]) /\ finished = FALSE
Next ==
  LET t == Docs[whichDoc] IN
  /\ ~finished /\ finished' = TRUE /\ UNCHANGED <<whichDoc, editPos>>
  /\ "cut" \in Kinds => EmitParse(Cut(t, editPos))
  /\ "ins" \in Kinds => \A n \in 1..Len(Noise) : EmitParse(Ins(t, editPos, Noise[n]))
  /\ "drop" \in Kinds /\ editPos > 0 => EmitParse(Drop(t, editPos)) /\ EmitParse(Dup(t, editPos))
  /\ "swap" \in Kinds /\ editPos > 0 /\ editPos < Len(t) => EmitParse(Swap(t, editPos))
Spec == Init /\ [][Next]_vars

(* a proper prefix is never accepted unless only blanks and comments are missing *)
ProperPrefix ==
  LET c == ParseText(Cut(Docs[whichDoc], editPos))
      rest == SubSeq(Docs[whichDoc], editPos + 1, Len(Docs[whichDoc]))
  IN c.ok /\ whichDoc # 2 => IsBlank(rest)
Whole == editPos = Len(Docs[whichDoc]) => ParseText(Docs[whichDoc]).ok /\ ParsedLaws(ParseText(Docs[whichDoc]).doc)
=============================================================================

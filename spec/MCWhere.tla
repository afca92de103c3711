------------------------------ MODULE MCWhere ------------------------------
(***************************************************************************)
(* Where faults are reported: documents made of up to Depth acceptable     *)
(* pieces (with line breaks, wide characters, quoted and commented         *)
(* delimiters), one fault, and a tail.  The fault's position is known from *)
(* how the document was made; the parser's FaultAt has to find it.         *)
(***************************************************************************)
EXTENDS Vec
CONSTANT Depth

(* pieces that keep the parser before, inside or behind the root *)
Outer == << S("\n"), S(" \t"), S("<!-- > \n-->"), <<LT, BANG, DASH, DASH, 233, 119070, LF, 9731, DASH, DASH, GT>>, S("<!--x-->"), <<13, LF>> >>
ProOnly == << S("<!DOCTYPE r [\n<!ENTITY x '>'>]>"), S("<?xml-s\n?>"), S("<![CDATA[x\n]]>") >>
Inner == << S("\n"), S("x\n  y"), S("<b\n k='>'\n/>"), <<233, LF, 119070>>, S("<b>\n</b>"), S("<![CDATA[<\n]]>"), S("<!--\n\n-->"), S("<b k=\"\n/>\"/>"), <<13, LF>>, S("line 7, column 9") >>
Pieces(st) == CASE st = "pro" -> Outer \o ProOnly [] st = "in" -> Inner [] OTHER -> Outer
Opening(st) == CASE st = "pro" -> << <<>>, S("<?xml version='1.0'?>"), S("<?xml\n?>") >>
                 [] st = "in" -> << S("<r>"), S("\n<r\n>"), S("<?xml?>\n<!-- -->\n<r a='\n'>") >>
                 [] OTHER -> << S("<r/>"), S("\n<r>\nx</r>"), S("<?xml?><r\n></r>\n") >>
(* faults that are found at their first character *)
Faults(st) ==
  CASE st = "pro" -> << S("</r>"), S("<1>"), S("<?x?>"), S("<"), S("<!--"), S("<![CDATA[\n"), S("<r a=b>"), S("<r\n'>"), S("<r"), S("<!DOCTYPE '\n") >>
    [] st = "in" -> << S("</x>"), S("</r\n"), S("<1>"), S("<?x?>"), S("<?xml?>"), S("<!DOCTYPE r>"), S("<!x>"), S("<!--\n-"), S("<![CDATA[\n]>"), S("<"), S("<b '>"),
                       S("<b k>"), S("<b\nk=v/>"), S("</>"), S("< b>"), S("<b/k='' >"), S("</r x='y'>") >>
    [] OTHER -> << S("<r/>"), S("</r>"), S("<r"), S("<1>"), S("<?x?>"), S("<!x>"), S("<![CDATA[]]>"), S("<!--\n"), S("x"), S("x\ny"), S("&amp;") >>
Tails == << <<>>, S("\n"), S("\n</r>\n<b>") >>

VARIABLES where, lead, upto, told   \* region; text so far; pieces so far; a fault was put behind
wvars == <<where, lead, upto, told>>
(* the fault begins behind the last construct: blanks before misplaced text belong to it *)
LastEnd(s) == LET j == SelectLastInSeq(s, LAMBDA c : c = GT) IN j + 1
FaultStart(st, s, f) == IF st = "past" /\ f[1] # LT THEN LastEnd(s) ELSE Len(s) + 1
WInit == /\ where \in {"pro", "in", "past"} /\ upto = 0 /\ told = <<>>
         /\ \E i \in 1..3 : lead = Opening(where)[i]
WNext ==
  /\ told = <<>> /\ UNCHANGED where
  /\ \/ /\ upto < Depth /\ upto' = upto + 1 /\ UNCHANGED told
        /\ \E i \in 1..Len(Pieces(where)) : lead' = lead \o Pieces(where)[i]
     \/ \E i \in 1..Len(Faults(where)), k \in 1..Len(Tails) :
          /\ told' = <<i, k>> /\ UNCHANGED <<lead, upto>>
          /\ EmitFault(lead \o Faults(where)[i] \o Tails[k])
WSpec == WInit /\ [][WNext]_wvars

(* line and column, counted piece by piece *)
RECURSIVE Walk(_, _, _, _)
Walk(s, i, to, at) == IF i = to THEN at
                      ELSE Walk(s, i + 1, to, IF s[i] = LF THEN <<at[1] + 1, 1>> ELSE <<at[1], at[2] + 1>>)
Found ==
  told # <<>> =>
    LET f == Faults(where)[told[1]]
        text == lead \o f \o Tails[told[2]]
        l == Located(text)
        open == NextTag(text, Len(lead) + 1).st = "open"
    IN /\ ~l.ok /\ l.must
       /\ l.at[1] = Walk(text, 1, FaultStart(where, lead, f), <<1, 1>>)
       /\ (f[1] = LT => Len(l.at) = 1)
=============================================================================

------------------------------ MODULE MCProlog ------------------------------
(***************************************************************************)
(* Declaration and document type definitions of a document: every sequence *)
(* of up to Depth operations that read, set, replace or remove them.  wantDecl and  *)
(* wantDtds say what should be there, without reference to the parser.     *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Depth, NParts

DeclTexts == << S("xml version=\"1.0\" encoding=\"UTF-8\""), S("xml version='1.1' standalone='yes'"), S("xml version=\"1.0\" note='a?>b'") >>
DtdTexts == << S(" r"), S(" r [<!ELEMENT r (a|b)*><!ENTITY e \"]>\">]"), S(" r SYSTEM \"a>b.dtd\""),
               S(" r [ <!-- ' ]> \" --> <?x ]> ?> <!ATTLIST r k CDATA '>'> ]"), <<32, 233, 9731>>,
               S(" r [<![INCLUDE[<![IGNORE[ <!ELEMENT r (a)> ]]><!ATTLIST r k CDATA \"]]>\">]]><!-- x -->]") >>
(* what may stand before the root: <<text, declaration?, DTDs>> *)
Pieces == <<
  << S(" \n"), <<>> >>,
  << S("<!DOCTYPE") \o DtdTexts[1] \o S(">"), << DtdTexts[1] >> >>,
  << S("<!DOCTYPE") \o DtdTexts[2] \o S(">\n"), << DtdTexts[2] >> >>,
  << S("<!-- <!DOCTYPE q> -->"), <<>> >>,
  << S("<?xml-stylesheet href='?>'?>"), <<>> >>,
  << S("<!DOCTYPE") \o DtdTexts[6] \o S(">"), << DtdTexts[6] >> >>,
  << S("<!ELEMENT r ANY>"), <<>> >>,
  << S("<!DOCTYPE") \o DtdTexts[3] \o S(">"), << DtdTexts[3] >> >>,
  << S("<!DOCTYPE") \o DtdTexts[4] \o S(">"), << DtdTexts[4] >> >>,
  << S("<?php a > b ?>"), <<>> >>,
  << S("<!---->"), <<>> >> >>
Bodies == << S("<r/>"), S("<r><!-- <?xml?> --><a k='<!DOCTYPE'/></r>\n<!-- <!DOCTYPE z> -->") >>

VARIABLES wantDecl, wantDtds, model, steps
vars == <<wantDecl, wantDtds, model, steps>>
Ser == << [op |-> "doc_ser", indent |-> <<SP, SP>>] >>
Do(pre, ev, d, ds) ==
  LET s1 == RunAll(model, pre) IN
  /\ EmitScript(steps \o pre \o <<ev>> \o Ser)
  /\ steps' = steps \o pre \o <<ev>> /\ model' = Apply(s1, ev).st
  /\ wantDecl' = d /\ wantDtds' = ds
Root == [op |-> "build", t |-> 2, tree |-> E(S("r"), <<T("x")>>)]
HasDoc == model.sl[1] # None

Init == wantDecl = None /\ wantDtds = <<>> /\ model = St0 /\ steps = <<>>
Seqs(n) == UNION { [1..j -> 1..NParts] : j \in 0..n }
Parse ==
  \E d \in 0..Len(DeclTexts), ps \in Seqs(IF steps = <<>> THEN 2 ELSE 1), b \in 1..Len(Bodies) :
    LET text == (IF d = 0 THEN <<>> ELSE S("<?") \o DeclTexts[d] \o S("?>")) \o Concat([i \in 1..Len(ps) |-> Pieces[ps[i]][1]]) \o Bodies[b]
    IN /\ d # 3      \* "?>" inside a declaration: its end is the first one
       (* LENIENCY: a leading <?xml-stylesheet ...?> passes for a declaration *)
       /\ d = 0 => \A i \in 1..Len(ps) : ps[i] = 5 => \E j \in 1..i - 1 : ps[j] # 1
       /\ steps # <<>> => b = 1 + (d % 2)
       /\ Do(<<>>, [op |-> "parse", text |-> text, plain |-> Bodies[b]], IF d = 0 THEN None ELSE Some(DeclTexts[d]), Concat([i \in 1..Len(ps) |-> Pieces[ps[i]][2]]))
DtdSets == << <<>>, <<DtdTexts[1]>>, <<DtdTexts[2], DtdTexts[3]>>, <<DtdTexts[4], DtdTexts[5], DtdTexts[1]>>, <<DtdTexts[1], DtdTexts[1]>>, <<DtdTexts[6]>> >>
New == Do(<<Root>>, [op |-> "doc_new", t |-> 2], Some(DefaultDecl), <<>>)
Make == \E d \in 0..2, k \in 1..Len(DtdSets) :
  LET dd == IF d = 0 THEN None ELSE Some(DeclTexts[d])
  IN Do(<<Root>>, [op |-> "doc_full", t |-> 2, decl |-> dd, dtds |-> DtdSets[k], some |-> k % 2 = 1], dd, DtdSets[k])
SetDecl == HasDoc /\ \E d \in 0..2 : LET dd == IF d = 0 THEN None ELSE Some(DeclTexts[d])
                                     IN Do(<<>>, [op |-> "set_decl", decl |-> dd], dd, wantDtds)
SetDtds == HasDoc /\ \E k \in 1..Len(DtdSets) : \E some \in (IF DtdSets[k] = <<>> THEN BOOLEAN ELSE {TRUE}) :
  Do(<<>>, [op |-> "set_dtds", dtds |-> DtdSets[k], some |-> some], wantDecl, DtdSets[k])
SetOne == HasDoc /\ \E i \in 1..Len(wantDtds), k \in 1..Len(DtdTexts) :
  Do(<<>>, [op |-> "set_dtd", i |-> i - 1, dtd |-> DtdTexts[k]], wantDecl, [wantDtds EXCEPT ![i] = DtdTexts[k]])
EditRoot == HasDoc /\ \E o \in {"set_text", "clear_children"} :
  Do(<<>>, IF o = "set_text" THEN [op |-> o, s |-> 1, path |-> <<>>, text |-> S("<!DOCTYPE>")] ELSE [op |-> o, s |-> 1, path |-> <<>>], wantDecl, wantDtds)
Next == Len(SelectSeq(steps, LAMBDA ev : ev.op # "build")) < Depth /\ (Parse \/ New \/ Make \/ SetDecl \/ SetDtds \/ SetOne \/ EditRoot)
Spec == Init /\ [][Next]_vars
ViewPro == <<wantDecl, wantDtds, model, Len(SelectSeq(steps, LAMBDA ev : ev.op # "build"))>>

Kept == HasDoc => model.decl = wantDecl /\ model.dtds = wantDtds
Written ==
  HasDoc => LET r == ParseText(SerDoc(CurDoc(model), TwoSpaces))
            IN r.ok /\ r.doc.decl = wantDecl /\ r.doc.dtds = wantDtds
=============================================================================

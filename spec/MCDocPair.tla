----------------------------- MODULE MCDocPair -----------------------------
(***************************************************************************)
(* Equality of documents: all pairs of documents over a few declarations,  *)
(* sequences of document type definitions and roots that agree in the root *)
(* or in what stands before it.                                            *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS MaxDtds

DeclTexts == << <<>>, S("<?xml version='1.0'?>"), S("<?xml version=\"1.0\"?>"),
                S("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"), S("<?xml version='1.0' ?>"), S("<?xml?>") >>
DtdTexts == << S("<!DOCTYPE r>"), S("<!DOCTYPE r [<!ENTITY e 'x'>]>"), S("<!DOCTYPE R>"), S("<!DOCTYPE r >") >>
RootTexts == << S("<r/>"), S("<r></r>"), S("<R/>"), S("<r xmlns='u'/>"), S("<p:r xmlns:p='u'/>"), S("<q:r xmlns:q='u'/>"), S("<r>x</r>"), S("<r><![CDATA[x]]></r>"),
                S("<r a='1' b='2'/>"), S("<r b='2' a='1'/>"), S("<r b='1' a='2'/>"), S("<r a='1'/>"), S("<r><a/><b/></r>"), S("<r><b/><a/></r>"), S("<r><a><b/></a></r>"),
                S("<r> <a/>\n<b/></r>"), S("<r><a/><!--c--><b/></r>") >>
VARIABLES left, right, shown
dpvars == <<left, right, shown>>
Dtds == UNION { [1..n -> 1..Len(DtdTexts)] : n \in 0..MaxDtds }
Docs == [d : 1..Len(DeclTexts), t : Dtds, r : 1..Len(RootTexts)]
TextOfDoc(x) == DeclTexts[x.d] \o Concat([i \in 1..Len(x.t) |-> DtdTexts[x.t[i]]]) \o RootTexts[x.r]
Init == /\ shown = FALSE
        /\ left \in [d : 1..Len(DeclTexts), t : Dtds, r : {1, 4}] /\ right \in [d : 1..Len(DeclTexts), t : Dtds, r : {1, 4}]
        /\ Cardinality({ f \in {"d", "t", "r"} : left[f] # right[f] }) <= 2
        /\ left.d # right.d /\ left.t # right.t => Len(left.t) <= 1 /\ Len(right.t) <= 1
InitRoots == shown = FALSE /\ left \in [d : {2}, t : {<<>>}, r : 1..Len(RootTexts)] /\ right \in [d : {2}, t : {<<>>}, r : 1..Len(RootTexts)]
Ev == [op |-> "doc_eq", a |-> TextOfDoc(left), b |-> TextOfDoc(right)]
Next == /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<left, right>>
        /\ EmitRes("res", <<>>, Ev, Apply(St0, Ev).res)
Spec == (Init \/ InitRoots) /\ [][Next]_dpvars

(* the roots that are the same document written differently *)
SameRoots == { {1, 2}, {9, 10}, {13, 16} }
Exactly ==
  shown => Apply(St0, Ev).res = OkV(left.d = right.d /\ left.t = right.t /\ (left.r = right.r \/ {left.r, right.r} \in SameRoots))
=============================================================================

----------------------------- MODULE Serialize -----------------------------
(***************************************************************************)
(* Writing nodes and documents as text.                                    *)
(***************************************************************************)
EXTENDS Tree

Z_COPEN == S("<!--")  Z_CCLOSE == S("-->")
Z_DOPEN == S("<![CDATA[")  Z_DCLOSE == S("]]>")
Z_EQQ == S("=\"")  Z_END == S("</")  Z_SELF == S("/>")
Z_PIOPEN == S("<?")  Z_PICLOSE == S("?>")  Z_DOCTYPE == S("<!DOCTYPE")

TwoSpaces == <<SP, SP>>
ValidIndent(i) == i = <<TAB>> \/ \A j \in 1..Len(i) : i[j] = SP
EffIndent(i) == IF ValidIndent(i) THEN i ELSE TwoSpaces

(* attributes: namespace declarations first, then by name *)
IsNsAttr(kv) == StartsWith(kv[1], XMLNS)
AttrOrder(at) == SelectSeq(at, IsNsAttr) \o SelectSeq(at, LAMBDA kv : ~IsNsAttr(kv))
SerAttrs(at) ==
  LET o == AttrOrder(at)
  IN Concat([i \in 1..Len(o) |-> <<SP>> \o o[i][1] \o Z_EQQ \o EscapeFull(o[i][2]) \o <<QUOT>>])

SerLeaf(x) == CASE x.k = "t" -> EscapeText(x.s)
                [] x.k = "c" -> Z_COPEN \o x.s \o Z_CCLOSE
                [] x.k = "d" -> Z_DOPEN \o x.s \o Z_DCLOSE

RECURSIVE SerElem(_, _, _, _)
SerElem(e, lead, ind, inlineIn) ==
  LET tn   == TagName(e)
      head == (IF inlineIn THEN <<>> ELSE lead) \o <<LT>> \o tn \o SerAttrs(e.at)
      tail == Z_END \o tn \o <<GT>>
      inl  == inlineIn \/ \E i \in 1..Len(e.ch) : IsText(e.ch[i])
      nl   == IF inl THEN <<>> ELSE <<LF>>
      next == lead \o ind
      item(c) == CASE IsText(c) -> EscapeText(c.s)
                   [] IsElem(c) -> SerElem(c, next, ind, inl)
                   [] OTHER     -> (IF inl THEN <<>> ELSE next) \o SerLeaf(c)
  IN CASE Len(e.ch) = 0 -> head \o Z_SELF
       [] Len(e.ch) = 1 /\ ~IsElem(e.ch[1]) -> head \o <<GT>> \o SerLeaf(e.ch[1]) \o tail
       [] OTHER ->
            head \o <<GT>> \o nl
            \o Concat([i \in 1..Len(e.ch) |-> item(e.ch[i]) \o nl])
            \o (IF inl THEN <<>> ELSE lead) \o tail

SerNode(x, ind) == IF IsElem(x) THEN SerElem(x, <<>>, EffIndent(ind), FALSE) ELSE SerLeaf(x)

SerDecl(d) == Z_PIOPEN \o d \o Z_PICLOSE
SerDtd(d)  == Z_DOCTYPE \o d \o <<GT>>
SerDoc(doc, ind) ==
  (IF doc.decl = None THEN <<>> ELSE SerDecl(doc.decl[1]) \o <<LF>>)
  \o Concat([i \in 1..Len(doc.dtds) |-> SerDtd(doc.dtds[i]) \o <<LF>>])
  \o SerElem(doc.root, <<>>, EffIndent(ind), FALSE) \o <<LF>>
=============================================================================

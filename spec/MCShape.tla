------------------------------ MODULE MCShape ------------------------------
(***************************************************************************)
(* Every ordered tree of up to MaxNodes nodes over a palette, each built   *)
(* exactly once by adding a node to the rightmost spine.  For each tree,   *)
(* what the property in focus is about is tried on the real library:       *)
(* queries and edits through them (C11), bulk removals (C10), kinds and    *)
(* texts (C17), serialisation (C13), writing and reading back (C04).       *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS MaxNodes, Palette

NA == S("a")  NB == S("b")  PP == S("p")  UU == S("u")  KK == S("k")
Elems ==
  CASE Palette = "plain" -> << E(NA, <<>>), E(NB, <<>>), EN(NA, Some(PP), Some(UU), <<>>, <<>>),
                               EN(NB, None, Some(UU), <<<<KK, S("1")>>>>, <<>>) >>
    [] Palette = "attrs" -> << EN(NA, None, None, <<<<S("b"), <<LT, QUOT>>>>, <<S("xmlnsz"), S("1")>>>>, <<>>),
                               EN(NB, Some(PP), Some(UU), <<<<S("k"), <<AMP, 233>>>>, <<S("a"), <<>>>>, <<S("xmlns"), S("v")>>>>, <<>>),
                               E(NA, <<>>) >>
    [] OTHER -> << E(NA, <<>>), EN(NB, None, Some(UU), <<>>, <<>>) >>
Leaves ==
  CASE Palette = "plain" -> << T("x"), C("x"), D("x") >>
    [] Palette = "attrs" -> << TextN(<<38, 60, 62, 34, 39>>), C(" c\n"), D("<&") >>
    [] Palette = "texts" -> << T("x"), T(" y "), TextN(<<233, 9731, 119070, 13, 10>>), C("c"), D(" "), D("") , TextN(<<>>), T(" ") >>
    [] OTHER -> << T("x"), T("&lt;"), C(" - "), D("]]"), TextN(<<160, 120>>) >>
Root == IF Palette = "attrs" THEN EN(S("r"), None, None, <<<<S("xmlns:p"), UU>>, <<S("k"), S("v")>>>>, <<>>) ELSE E(S("r"), <<>>)

VARIABLES shape, nodes
vars == <<shape, nodes>>

(* the nodes on the rightmost spine that can take another child *)
RECURSIVE Spine(_, _)
Spine(x, q) ==
  IF ~IsElem(x) THEN {}
  ELSE {q} \cup (IF x.ch = <<>> THEN {} ELSE Spine(x.ch[Len(x.ch)], Append(q, Len(x.ch))))
AddAt(t, q, x) == PutAt(t, q, [NodeAt(t, q) EXCEPT !.ch = Append(@, x)])

B(t) == << [op |-> "build", t |-> 2, tree |-> t] >>

(* --- C11 --- *)
ByOpt == << None, Some(UU), Some(PP), Some(S("none")) >>
Preds == << [p |-> "all"], [p |-> "none"], [p |-> "kind", k |-> "e"], [p |-> "kind", k |-> "t"], [p |-> "kind", k |-> "c"],
            [p |-> "kind", k |-> "d"], [p |-> "name", s |-> NA], [p |-> "attr", s |-> KK], [p |-> "ns", o |-> Some(UU)],
            [p |-> "prefix", o |-> Some(PP)], [p |-> "leafy"], [p |-> "text", s |-> S("x")], [p |-> "contains", s |-> S("xx")] >>
Q0(n) == [q |-> n]
QS(n, str) == [q |-> n, s |-> str]
QO(n, opt) == [q |-> n, o |-> opt]
QP(n, pr) == [q |-> n, pr |-> pr]
Names == << NA, NB, S("zz") >>
Flat(f) == Concat(f)
ReadOnly ==
  << Q0("children"), Q0("child_elements"), Q0("all_children"), Q0("children_recursive") >>
  \o Flat([i \in 1..3 |-> << QS("by_name", Names[i]), QS("first", Names[i]), QS("search_by_name", Names[i]) >>])
  \o Flat([i \in 1..4 |-> << QO("by_ns", ByOpt[i]), QO("by_prefix", ByOpt[i]) >>])
  \o Flat([i \in 1..Len(Preds) |-> << QP("search", Preds[i]), QP("search_elements", Preds[i]), QP("search_text", Preds[i]),
                                      QP("search_comments", Preds[i]) >>])
Mutable ==
  << Q0("children_mut"), Q0("child_elements_mut") >>
  \o Flat([i \in 1..3 |-> << QS("by_name_mut", Names[i]), QS("first_mut", Names[i]) >>])
  \o Flat([i \in 1..4 |-> << QO("by_ns_mut", ByOpt[i]), QO("by_prefix_mut", ByOpt[i]) >>])
Marks == << S("m1"), S("m2"), S("m3") >>
QueryEvents(q) ==
  [i \in 1..Len(ReadOnly) |-> [op |-> "query", s |-> 2, path |-> q, q |-> ReadOnly[i]]]
  \o Flat([i \in 1..Len(Mutable) |->
       << [op |-> "query", s |-> 2, path |-> q, q |-> Mutable[i]],
          [op |-> "mark", s |-> 2, path |-> q, q |-> Mutable[i], key |-> Marks[1 + (i % 3)], val |-> <<48 + i>>] >>])

(* --- C10 --- *)
BulkEvents(q) ==
  Flat([i \in 1..Len(Preds) |-> Flat([o \in 1..4 |->
         << [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3],
            [op |-> <<"remove_by", "remove_elements", "remove_all", "remove_all_elements">>[o], s |-> 3, path |-> q, pr |-> Preds[i]] >>])])
  \o Flat([i \in 1..3 |-> << [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3],
                             [op |-> "remove_by_name", s |-> 3, path |-> q, name |-> Names[i]] >>])

(* --- C17, C13 --- *)
AllPaths(t) == << <<>> >> \o Descendants(t)
KindEvents(t) == Flat([i \in 1..Len(AllPaths(t)) |->
                        << [op |-> "kind", s |-> 2, path |-> AllPaths(t)[i]], [op |-> "text", s |-> 2, path |-> AllPaths(t)[i]] >>])
Indents == << <<SP, SP>>, <<>>, <<SP>>, <<TAB>>, <<SP, SP, SP, SP>>, <<TAB, TAB>>, <<SP, TAB>>, S("x"), <<LF>>, <<160>>, <<SP, SP, LF>> >>
SerEvents(t) ==
  [i \in 1..Len(Indents) |-> [op |-> "ser", s |-> 2, path |-> <<>>, indent |-> Indents[i]]]
  \o [i \in 1..Len(Descendants(t)) |-> [op |-> "ser", s |-> 2, path |-> Descendants(t)[i], indent |-> Indents[1 + (i % 4)]]]

(* --- C04 --- *)
Decls == << None, Some(S("xml version=\"1.0\"")), Some(S("xml version='1.1' encoding='UTF-8' standalone=\"yes\" x='?'")) >>
Dtds == << <<>>, << S(" r") >>, << S(" r [<!ENTITY e \">]\"> <!-- ' -->]"), S(" s SYSTEM 'a>b'") >> >>
RoundEvents(k) ==
  Flat([d \in 1..3 |->
     << [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3],
        [op |-> "doc_full", decl |-> Decls[1 + ((d + k) % 3)], dtds |-> Dtds[d], t |-> 3],
        [op |-> "roundtrip", indent |-> Indents[1 + ((2 * k + d) % Len(Indents))]],
        [op |-> "roundtrip", indent |-> Indents[1 + (d % 4)]] >>])

Inner(t) == SelectSeq(Descendants(t), LAMBDA q : IsElem(NodeAt(t, q)))
Emit(t, k) ==
  LET x == Build(t) IN      \* building merges texts: paths are those of the built tree
  CASE Focus = "C11" -> EmitRun("edit", B(t), QueryEvents(<<>>) \o (IF Inner(x) = <<>> THEN <<>> ELSE QueryEvents(Inner(x)[1])))
    [] Focus = "C10" -> EmitRun("edit", B(t), BulkEvents(<<>>) \o (IF Inner(x) = <<>> THEN <<>> ELSE BulkEvents(Inner(x)[1])))
    [] Focus = "C17" -> EmitRun("res", B(t), KindEvents(x))
    [] Focus = "C13" -> EmitRun("res", B(t), SerEvents(x))
    [] Focus = "C04" -> EmitScript(B(t) \o RoundEvents(k))

Init == shape = Root /\ nodes = 0
Grow ==
  /\ nodes < MaxNodes
  /\ \E q \in Spine(shape, <<>>) : \E x \in ToSet(Elems) \cup ToSet(Leaves) :
       /\ shape' = AddAt(shape, q, x)
       /\ nodes' = nodes + 1
       /\ Emit(shape', nodes')
Next == Grow
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The operations checked against statements that do not mention them *)
Tr == Build(shape)
Nodes(t) == { q \in Paths(t) : q # <<>> }

(* queries are exact: in document order, each once, exactly the matching ones *)
Before(a, b) ==      \* document order of paths
  \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
  \/ \E i \in 1..Len(a) : i <= Len(b) /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1) /\ a[i] < b[i]
Ordered(qs) == \A i \in 1..Len(qs) - 1 : Before(qs[i], qs[i + 1])
QueriesExact ==
  \A i \in 1..Len(Preds) :
    /\ LET r == QueryResult(Tr, QP("search", Preds[i]))
       IN Ordered(r) /\ ToSet(r) = { q \in Nodes(Tr) : Sat(Preds[i], NodeAt(Tr, q)) }
    /\ LET r == QueryResult(Tr, QP("search_elements", Preds[i]))
       IN Ordered(r) /\ ToSet(r) = { q \in Nodes(Tr) : IsElem(NodeAt(Tr, q)) /\ Sat(Preds[i], NodeAt(Tr, q)) }
ChildQueries ==
  /\ \A nm \in ToSet(Names) :
       LET r == QueryResult(Tr, QS("by_name", nm))
       IN Ordered(r) /\ ToSet(r) = { q \in Nodes(Tr) : Len(q) = 1 /\ IsElem(NodeAt(Tr, q)) /\ NodeAt(Tr, q).n = nm }
  /\ \A o \in ToSet(ByOpt) :
       ToSet(QueryResult(Tr, QO("by_ns", o))) = { q \in Nodes(Tr) : Len(q) = 1 /\ IsElem(NodeAt(Tr, q)) /\ NodeAt(Tr, q).ns = o }
MutAgree == \A i \in 1..Len(Mutable) :
  LET m == Mutable[i]
      plain == CASE m.q = "children_mut" -> "children" [] m.q = "child_elements_mut" -> "child_elements" [] m.q = "by_name_mut" -> "by_name"
                 [] m.q = "first_mut" -> "first" [] m.q = "by_ns_mut" -> "by_ns" [] m.q = "by_prefix_mut" -> "by_prefix"
  IN QueryResult(Tr, m) = QueryResult(Tr, [m EXCEPT !.q = plain])

(* removal: the nodes that stay are those with no matching node above or at
   them; the count is the number of matching nodes not below another one *)
RemovalExact ==
  \A i \in 1..Len(Preds) : \A only \in BOOLEAN :
    LET hit(q) == (only => IsElem(NodeAt(Tr, q))) /\ Sat(Preds[i], NodeAt(Tr, q))
        under(q) == \E j \in 1..Len(q) - 1 : hit(SubSeq(q, 1, j))
        r == RemoveDeep(Tr, Preds[i], only)
        kept == SelectSeq(Descendants(Tr), LAMBDA q : ~under(q) /\ ~hit(q))
        mark(x) == IF IsElem(x) THEN <<x.n, x.p, x.ns, x.at>> ELSE <<x.k, x.s>>
        left == Descendants(r.e)
    IN Preds[i].p \notin {"leafy", "text", "contains"} =>
       /\ r.n = Cardinality({ q \in Nodes(Tr) : hit(q) /\ ~under(q) })
       /\ Len(left) = Len(kept)
       /\ \A j \in 1..Len(left) : /\ mark(NodeAt(r.e, left[j])) = mark(NodeAt(Tr, kept[j]))
                                  /\ Len(left[j]) = Len(kept[j])

(* the text of an element is that of its text nodes, in document order *)
TextExact == TextOf(Tr) = Concat([i \in 1..Len(QueryResult(Tr, QP("search_text", [p |-> "all"]))) |->
                                    NodeAt(Tr, QueryResult(Tr, QP("search_text", [p |-> "all"]))[i]).s])

(* layout: without its line breaks and indentation, the output is the inline
   form; and every line of an element without text is indented by its depth *)
RECURSIVE InlineForm(_)
InlineForm(x) ==
  IF ~IsElem(x) THEN SerLeaf(x)
  ELSE LET h == <<LT>> \o TagName(x) \o SerAttrs(x.at)
       IN IF x.ch = <<>> THEN h \o S("/>")
          ELSE h \o <<GT>> \o Concat([i \in 1..Len(x.ch) |-> InlineForm(x.ch[i])]) \o S("</") \o TagName(x) \o <<GT>>
HasText(x) == \E i \in 1..Len(x.ch) : IsText(x.ch[i])
RECURSIVE Lines(_, _)
Lines(x, depth) ==      \* as <<depth, text>> pairs
  IF ~IsElem(x) \/ HasText(x) \/ Len(x.ch) = 0 \/ (Len(x.ch) = 1 /\ ~IsElem(x.ch[1])) THEN << <<depth, InlineForm(x)>> >>
  ELSE << <<depth, <<LT>> \o TagName(x) \o SerAttrs(x.at) \o <<GT>>>> >>
       \o Concat([i \in 1..Len(x.ch) |-> Lines(x.ch[i], depth + 1)])
       \o << <<depth, S("</") \o TagName(x) \o <<GT>>>> >>
RECURSIVE Times(_, _)
Times(t, k) == IF k = 0 THEN <<>> ELSE t \o Times(t, k - 1)
LayoutExact ==
  \A ind \in {<<>>, <<SP>>, TwoSpaces, <<TAB>>} :
    LET ls == Lines(Tr, 0)
    IN SerNode(Tr, ind) = Concat([i \in 1..Len(ls) |-> (IF i > 1 THEN <<LF>> ELSE <<>>) \o Times(ind, ls[i][1]) \o ls[i][2]])
BadIndents == \A ind \in {<<TAB, TAB>>, <<SP, TAB>>, S("x"), <<LF>>, <<160>>} : SerNode(Tr, ind) = SerNode(Tr, TwoSpaces)

RoundLaw == \A d \in 1..3 : \A ind \in {<<>>, TwoSpaces, <<TAB>>} : RoundTripLaw(Doc(Decls[d], Dtds[d], Tr), ind)
=============================================================================

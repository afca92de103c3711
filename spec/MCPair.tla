------------------------------- MODULE MCPair -------------------------------
(***************************************************************************)
(* Equality and cloning: every tree of up to MaxNodes nodes (grown as in   *)
(* MCShape) is compared with itself, a clone, and every tree that differs  *)
(* from it in one visible detail; and a clone is edited in every way.      *)
(***************************************************************************)
EXTENDS MCShape
VARIABLES unused

(* the trees that differ in one detail at one node *)
LeafVariants(x) ==
  { [x EXCEPT !.k = kind] : kind \in {"t", "c", "d"} \ {x.k} }
  \cup { [x EXCEPT !.s = Append(x.s, 32)], [x EXCEPT !.s = S("y")], [x EXCEPT !.s = <<>>], [x EXCEPT !.s = x.s \o x.s] }
SwapAt(ch, i) == [ch EXCEPT ![i] = ch[i + 1], ![i + 1] = ch[i]]
DropAt(ch, i) == SubSeq(ch, 1, i - 1) \o SubSeq(ch, i + 1, Len(ch))
ElemVariants(x) ==
  { [x EXCEPT !.n = S("other")], [x EXCEPT !.n = x.n \o S("x")],
    [x EXCEPT !.p = IF x.p = None THEN Some(S("p")) ELSE None], [x EXCEPT !.p = Some(S("z"))],
    [x EXCEPT !.ns = IF x.ns = None THEN Some(S("u")) ELSE None], [x EXCEPT !.ns = Some(S("w"))], [x EXCEPT !.ns = Some(<<>>)],
    [x EXCEPT !.at = Append(@, <<S("new"), <<>>>>)],
    [x EXCEPT !.ch = Append(@, T("tail"))], [x EXCEPT !.ch = Append(@, E(S("a"), <<>>))], [x EXCEPT !.ch = <<E(S("a"), <<>>)>> \o @] }
  \cup { [x EXCEPT !.at = DropAt(@, i)] : i \in 1..Len(x.at) }
  \cup { [x EXCEPT !.at[i][2] = Append(@, 33)] : i \in 1..Len(x.at) }
  \cup { [x EXCEPT !.at[i][1] = Append(@, 122)] : i \in 1..Len(x.at) }
  \cup { [x EXCEPT !.ch = DropAt(@, i)] : i \in 1..Len(x.ch) }
  \cup { [x EXCEPT !.ch = SubSeq(@, 1, i) \o SubSeq(@, i, Len(@))] : i \in 1..Len(x.ch) }
  \cup { [x EXCEPT !.ch = SwapAt(@, i)] : i \in 1..Len(x.ch) - 1 }
VariantsAt(t, q) == { PutAt(t, q, y) : y \in IF IsElem(NodeAt(t, q)) THEN ElemVariants(NodeAt(t, q)) ELSE LeafVariants(NodeAt(t, q)) }
Variants(t) == SetToSeq(UNION { VariantsAt(t, q) : q \in Paths(t) })
EqEv == [op |-> IF Focus = "C20" THEN "cmp" ELSE "eq", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>]
PairEvents(t) ==
  LET vs == Variants(t) IN
  << [op |-> "build", t |-> 3, tree |-> t], EqEv, [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3, via |-> TRUE], EqEv >>
  \o Concat([i \in 1..Len(vs) |-> << [op |-> "build", t |-> 3, tree |-> vs[i]], EqEv >>])

(* editing a clone (slot 3, or a part of it) leaves the original (slot 2) *)
ElemPaths(x) == SelectSeq(<< <<>> >> \o Descendants(x), LAMBDA q : IsElem(NodeAt(x, q)))
LeafPaths(x) == SelectSeq(Descendants(x), LAMBDA q : ~IsElem(NodeAt(x, q)))
Fresh(s, q, j) == << [op |-> "drop", t |-> 3], [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3, via |-> j % 2 = 0] >>
EditsAt(q) ==
  << << [op |-> "set_attr", s |-> 3, path |-> q, key |-> S("k"), val |-> S("new")] >>,
     << [op |-> "clear_attrs", s |-> 3, path |-> q] >>,
     << [op |-> "set_text", s |-> 3, path |-> q, text |-> S("new")] >>,
     << [op |-> "clear_children", s |-> 3, path |-> q] >>,
     << [op |-> "build", t |-> 4, tree |-> E(S("new"), <<>>)], [op |-> "append", s |-> 3, path |-> q, t |-> 4, boxed |-> FALSE] >>,
     << [op |-> "remove", s |-> 3, path |-> q, i |-> 0, t |-> 5], [op |-> "drop", t |-> 5] >>,
     << [op |-> "remove_by", s |-> 3, path |-> q, pr |-> [p |-> "all"]] >> >>
CloneEvents(x) ==
  Concat([e \in 1..Len(ElemPaths(x)) |->
     LET q == ElemPaths(x)[e]  es == EditsAt(q)
     IN Concat([j \in 1..Len(es) |-> Fresh(2, <<>>, j) \o
           SelectSeq(es[j], LAMBDA ev : ~(ev.op = "drop" /\ NodeAt(x, q).ch = <<>>)) \o <<EqEv>>])])
  \o Concat([l \in 1..Len(LeafPaths(x)) |->
        Fresh(2, <<>>, l) \o << [op |-> "set_content", s |-> 3, path |-> LeafPaths(x)[l], text |-> S("new")], EqEv >>])

(* an edit of the original and the same edit of its clone give equal results;
   the part that is cloned may sit anywhere *)
Twin(q) == [op |-> "eq", s |-> 2, path |-> q, s2 |-> 3, path2 |-> <<>>, twin |-> TRUE]
Joined == << E(S("new"), <<>>), EN(S("new"), Some(PP), None, <<>>, <<>>), EN(S("new"), Some(S("q")), None, <<>>, << E(S("low"), <<>>) >>) >>
TwinEvents(x) ==
  Concat([e \in 1..Len(ElemPaths(x)) |->
    LET q == ElemPaths(x)[e] IN
    << [op |-> "drop", t |-> 3], [op |-> "clone", s |-> 2, path |-> q, t |-> 3, via |-> e % 2 = 0], Twin(q) >>
    \o Concat([j \in 1..Len(Joined) |->
        << [op |-> "build", t |-> 4, tree |-> Joined[j]], [op |-> "append", s |-> 2, path |-> q, t |-> 4, boxed |-> FALSE],
           [op |-> "build", t |-> 4, tree |-> Joined[j]], [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> FALSE], Twin(q) >>])])
TwinRoots == << [shape EXCEPT !.at = << <<S("xmlns"), UU>>, <<S("xmlns:p"), S("v")>> >>], [shape EXCEPT !.p = Some(S("q")), !.ns = Some(S("w"))] >>
PInit == Init /\ unused = 0
PGrow == /\ nodes < MaxNodes
         /\ \E q \in Spine(shape, <<>>) : \E x \in ToSet(Elems) \cup ToSet(Leaves) :
              /\ shape' = AddAt(shape, q, x) /\ nodes' = nodes + 1 /\ unused' = 0
              /\ EmitRun(IF Focus = "C20" THEN "res" ELSE "pair", B(shape'), PairEvents(shape'))
              /\ Focus # "C20" => EmitRun("pair", B(shape'), CloneEvents(Build(shape')))
              /\ Focus # "C20" => \A i \in 1..2 : EmitRun("pair", B(TwinRoots[i]'), << [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3] >> \o TwinEvents(Build(TwinRoots[i]')))
PSpec == PInit /\ [][PGrow]_<<shape, nodes, unused>>

(* one visible difference is a difference *)
Differ == \A i \in 1..Len(Variants(shape)) :
  LET a == Build(shape)  b == Build(Variants(shape)[i])
  IN Visible(a) = Visible(b) => SerNode(a, <<>>) = SerNode(b, <<>>)
=============================================================================

-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library's public interface as a transition system.                  *)
(*                                                                         *)
(* A state st is [sl, decl, dtds]: sl[1] is the root element of the        *)
(* document under test (None: no document) with declaration decl and       *)
(* document type definitions dtds; sl[2], sl[3], ... are detached nodes.   *)
(* An event is a record with the name of the operation (op) and its        *)
(* arguments; Apply(st, ev) is [st |-> state afterwards, res |-> result].  *)
(*                                                                         *)
(* Elements are addressed by slot (ev.s) and path (ev.path).               *)
(***************************************************************************)
EXTENDS Parse, Serialize, Query

EmptySt(n) == [sl |-> [i \in 1..n |-> None], decl |-> None, dtds |-> <<>>]

Target(st, ev) == NodeAt(st.sl[ev.s][1], ev.path)
SetTarget(st, ev, y) == [st EXCEPT !.sl[ev.s] = Some(PutAt(st.sl[ev.s][1], ev.path, y))]
Take(st, t) == [st EXCEPT !.sl[t] = None]
Put(st, t, x) == [st EXCEPT !.sl[t] = Some(x)]
TakeAll(st, ts) == [st EXCEPT !.sl = [i \in 1..Len(st.sl) |->
                       IF i \in ToSet(ts) THEN None ELSE st.sl[i]]]

Ok == [ok |-> TRUE]
Err == [ok |-> FALSE]
OkV(v) == [ok |-> TRUE, v |-> v]
Ret(st, res) == [st |-> st, res |-> res]
DefaultDecl == S("xml version=\"1.0\" encoding=\"UTF-8\"")

(* may this content be stored in a leaf of that kind? *)
ContentOk(k, s) == CASE k = "t" -> TRUE
                     [] k = "c" -> ~ContainsSub(s, L_COMMENT_END)
                     [] k = "d" -> ~ContainsSub(s, L_CDATA_END)
Leaf(k, s) == [k |-> k, s |-> s]

(* new element from name, text?, attributes, namespace?, prefix?, children *)
NewElem(name, text, at, ns, prefix, kids) ==
  IF \/ ~IsApiName(name)
     \/ prefix # None /\ ~IsApiName(prefix[1])
     \/ \E i \in 1..Len(at) : ~IsApiName(at[i][1])
  THEN None
  ELSE LET e0 == RawElem(name, MapOf(at), ns, prefix)
           e1 == IF text = None THEN e0 ELSE AppendTo(e0, TextN(text[1]))
       IN Some(IF kids = None THEN e1 ELSE AppendAllTo(e1, kids[1]))

DeclFromStr(s) ==
  LET t == Trim(s)
  IN IF Len(t) >= 4 /\ StartsWith(t, L_PI) /\ EndsWith(t, L_PI_END)
     THEN Some(SubSeq(t, 3, Len(t) - 2)) ELSE None
DtdFromString(s) ==
  LET t == Trim(s)
  IN IF StartsWith(t, P_DOCTYPE) /\ EndsWith(t, L_GT)
     THEN Some(SubSeq(t, 10, Len(t) - 1)) ELSE None

CurDoc(st) == Doc(st.decl, st.dtds, st.sl[1][1])
SetDoc(st, d) == [Put(st, 1, d.root) EXCEPT !.decl = d.decl, !.dtds = d.dtds]

ElemIdx(e) == KidIdx(e, IsElem)
RemoveChild(e, i) == [e EXCEPT !.ch = SubSeq(e.ch, 1, i - 1) \o SubSeq(e.ch, i + 1, Len(e.ch))]

KindReport(x) ==
  LET b(k) == x.k = k
  IN [name |-> CASE x.k = "e" -> S("Element") [] x.k = "t" -> S("Text") [] x.k = "c" -> S("Comment") [] x.k = "d" -> S("CDATA"),
      k |-> x.k, is |-> <<b("e"), b("t"), b("c"), b("d")>>,
      as |-> <<b("e"), b("t"), b("c"), b("d")>>,
      asm |-> <<b("e"), b("t"), b("c"), b("d")>>,
      any |-> <<b("e"), b("t"), b("c"), b("d")>>]

NameReport(e) ==
  [name |-> e.n, prefix |-> e.p, ns |-> e.ns,
   dns |-> IF e.p = None THEN e.ns ELSE None,
   tag |-> TagName(e), prefixes |-> OwnBindings(e.at)]

(* ------------------------------------------------------------------------
   The effects of the in-place edits on one element: [e, res] or with the
   node taken out [e, res, out].  `kids` are the nodes handed in. *)
Edit(e, ev, kids) ==
  CASE ev.op = "append"     -> [e |-> AppendTo(e, kids[1]), res |-> Ok]
    [] ev.op = "append_all" -> [e |-> AppendAllTo(e, kids), res |-> Ok]
    [] ev.op = "insert" ->
         IF ev.i > Len(e.ch) THEN [e |-> e, res |-> Err]
         ELSE [e |-> InsertInto(e, ev.i, kids[1]), res |-> Ok]
    [] ev.op = "set_text" -> [e |-> AppendTo([e EXCEPT !.ch = <<>>], TextN(ev.text)), res |-> Ok]
    [] ev.op = "clear_children" -> [e |-> [e EXCEPT !.ch = <<>>], res |-> Ok]
    [] ev.op = "set_attr" ->
         IF IsApiName(ev.key) THEN [e |-> [e EXCEPT !.at = MapPut(e.at, ev.key, ev.val)], res |-> Ok]
         ELSE [e |-> e, res |-> Err]
    [] ev.op = "remove_attr" ->
         [e |-> [e EXCEPT !.at = MapDel(e.at, ev.key)], res |-> OkV(MapGet(e.at, ev.key))]
    [] ev.op = "clear_attrs" -> [e |-> [e EXCEPT !.at = <<>>], res |-> Ok]
    [] ev.op \in {"remove_by", "remove_elements"} ->
         LET r == RemoveKids(e, LAMBDA x : (ev.op = "remove_elements" => IsElem(x)) /\ Sat(ev.pr, x))
         IN [e |-> r.e, res |-> OkV(r.n)]
    [] ev.op = "remove_by_name" ->
         LET r == RemoveKids(e, LAMBDA x : IsElem(x) /\ x.n = ev.name)
         IN [e |-> r.e, res |-> OkV(r.n)]
    [] ev.op \in {"remove_all", "remove_all_elements"} ->
         LET r == RemoveDeep(e, ev.pr, ev.op = "remove_all_elements")
         IN [e |-> r.e, res |-> OkV(r.n)]

EditOps == {"append", "append_all", "insert", "set_text", "clear_children", "set_attr",
            "remove_attr", "clear_attrs", "remove_by", "remove_elements", "remove_by_name",
            "remove_all", "remove_all_elements"}

(* slots whose nodes an edit takes in *)
Consumed(ev) == CASE ev.op \in {"append", "insert"} -> <<ev.t>>
                  [] ev.op = "append_all" -> ev.ts
                  [] OTHER -> <<>>

ApplyEdit(st, ev) ==
  LET ts   == Consumed(ev)
      kids == [i \in 1..Len(ts) |-> st.sl[ts[i]][1]]
      r    == Edit(Target(st, ev), ev, kids)
  IN Ret(SetTarget(TakeAll(st, ts), ev, r.e), r.res)

(* remove / remove_element: the node goes to slot ev.t *)
ApplyRemove(st, ev) ==
  LET e   == Target(st, ev)
      idx == IF ev.op = "remove" THEN [i \in 1..Len(e.ch) |-> i] ELSE ElemIdx(e)
  IN IF ev.i >= Len(idx) THEN Ret(st, Err)
     ELSE LET j == idx[ev.i + 1]
          IN Ret(Put(SetTarget(st, ev, RemoveChild(e, j)), ev.t, e.ch[j]), Ok)

ApplyNew(st, ev) ==
  LET kids == IF ev.kids = None THEN None
              ELSE Some([i \in 1..Len(ev.kids[1]) |-> st.sl[ev.kids[1][i]][1]])
      ts   == IF ev.kids = None THEN <<>> ELSE ev.kids[1]
      r    == NewElem(ev.name, ev.text, ev.at, ev.ns, ev.prefix, kids)
      st2  == TakeAll(st, ts)
  IN IF r = None THEN Ret(st2, Err) ELSE Ret(Put(st2, ev.t, r[1]), Ok)

(* apply the edit (setting attribute ev.key) to every element a query yields *)
RECURSIVE MarkAll(_, _, _)
MarkAll(e, paths, kv) ==
  IF paths = <<>> THEN e
  ELSE LET x == NodeAt(e, Head(paths))
           y == IF IsElem(x) THEN [x EXCEPT !.at = MapPut(x.at, kv[1], kv[2])] ELSE x
       IN MarkAll(PutAt(e, Head(paths), y), Tail(paths), kv)

(* a whole subtree built bottom-up through the constructors; in a tree to be
   built, ns is the namespace given explicitly *)
RECURSIVE Build(_)
Build(x) ==
  IF IsElem(x)
  THEN NewElem(x.n, None, x.at, x.ns, x.p, Some(TLCEval([i \in 1..Len(x.ch) |-> Build(x.ch[i])])))[1]
  ELSE x

(* the order of two nodes: leaves by content, elements by name; elements of
   one name are not comparable unless they are equal *)
TextOrder(a, b) == IF a = b THEN "eq" ELSE IF TextLess(a, b) THEN "lt" ELSE "gt"
NodeOrder(x, y) ==
  CASE x.k # y.k -> "kinds"
    [] IsElem(x) -> IF x.n # y.n THEN TextOrder(x.n, y.n)
                    ELSE IF Visible(x) = Visible(y) THEN "eq" ELSE "none"
    [] OTHER -> TextOrder(x.s, y.s)

Apply(st, ev) ==
  CASE ev.op \in EditOps -> ApplyEdit(st, ev)
    [] ev.op \in {"remove", "remove_element"} -> ApplyRemove(st, ev)
    [] ev.op = "new" -> ApplyNew(st, ev)
    [] ev.op = "build" -> Ret(Put(st, ev.t, Build(ev.tree)), Ok)
    [] ev.op = "leaf" ->
         IF ContentOk(ev.k, ev.text) THEN Ret(Put(st, ev.t, Leaf(ev.k, ev.text)), Ok)
         ELSE Ret(st, Err)
    [] ev.op = "set_content" ->
         LET x == Target(st, ev)
         IN IF ContentOk(x.k, ev.text) THEN Ret(SetTarget(st, ev, Leaf(x.k, ev.text)), Ok)
            ELSE Ret(st, Err)
    [] ev.op = "clone" -> Ret(Put(st, ev.t, Target(st, ev)), Ok)
    [] ev.op = "drop"  -> Ret(Take(st, ev.t), Ok)
    [] ev.op = "reset" -> Ret(EmptySt(Len(st.sl)), Ok)
    (* the document *)
    [] ev.op = "doc_new" ->
         Ret([SetDoc(st, Doc(Some(DefaultDecl), <<>>, st.sl[ev.t][1])) EXCEPT !.sl[ev.t] = None], Ok)
    [] ev.op = "doc_full" ->
         Ret([SetDoc(st, Doc(ev.decl, ev.dtds, st.sl[ev.t][1])) EXCEPT !.sl[ev.t] = None], Ok)
    [] ev.op = "set_decl" -> Ret([st EXCEPT !.decl = ev.decl], Ok)
    [] ev.op = "set_dtds" -> Ret([st EXCEPT !.dtds = ev.dtds], Ok)
    [] ev.op = "set_dtd"  -> Ret([st EXCEPT !.dtds[ev.i + 1] = ev.dtd], Ok)
    [] ev.op = "parse" ->
         LET r == ParseText(ev.text)
             p == IF "plain" \in DOMAIN ev THEN [plain |-> ParseText(ev.plain).ok] ELSE <<>>
         IN IF r.ok THEN Ret(SetDoc(st, r.doc), Ok @@ p) ELSE Ret(st, Err @@ p)
    [] ev.op = "locate" -> Ret(st, Located(ev.text))
    (* reading *)
    [] ev.op = "query" -> Ret(st, OkV(QueryResult(Target(st, ev), ev.q)))
    [] ev.op = "mark"  ->
         LET e == Target(st, ev)
             r == QueryResult(e, ev.q)
         IN Ret(SetTarget(st, ev, MarkAll(e, r, <<ev.key, ev.val>>)), OkV(r))
    [] ev.op = "kind"  -> Ret(st, OkV(KindReport(Target(st, ev))))
    [] ev.op = "names" -> Ret(st, OkV(NameReport(Target(st, ev))))
    [] ev.op = "text"  -> Ret(st, OkV(TextOf(Target(st, ev))))
    [] ev.op = "get_attr" -> Ret(st, OkV(MapGet(Target(st, ev).at, ev.key)))
    [] ev.op = "ser"     -> Ret(st, OkV(SerNode(Target(st, ev), ev.indent)))
    [] ev.op = "doc_ser" -> Ret(st, OkV(SerDoc(CurDoc(st), ev.indent)))
    [] ev.op = "eq" ->
         Ret(st, OkV(Visible(Target(st, ev)) = Visible(NodeAt(st.sl[ev.s2][1], ev.path2))))
    [] ev.op = "cmp" -> Ret(st, OkV(NodeOrder(Target(st, ev), NodeAt(st.sl[ev.s2][1], ev.path2))))
    [] ev.op = "pro_cmp" -> Ret(st, OkV(TextOrder(ev.a, ev.b)))
    [] ev.op = "concat" -> Ret(Put(st, ev.t, Leaf("t", Target(st, ev).s \o NodeAt(st.sl[ev.s2][1], ev.path2).s)), Ok)
    [] ev.op = "decl_default" -> Ret(st, OkV(SerDecl(DefaultDecl)))
    [] ev.op = "doc_eq" ->
         LET a == ParseText(ev.a)  b == ParseText(ev.b)
         IN Ret(st, IF a.ok /\ b.ok
                    THEN OkV(/\ a.doc.decl = b.doc.decl /\ a.doc.dtds = b.doc.dtds
                             /\ Visible(a.doc.root) = Visible(b.doc.root))
                    ELSE Err)
    (* functions on strings *)
    [] ev.op = "escape"      -> Ret(st, OkV(EscapeFull(ev.text)))
    [] ev.op = "attr_escape" -> Ret(st, OkV(EscapeFull(ev.text)))
    [] ev.op = "text_escape" -> Ret(st, OkV(EscapeText(ev.text)))
    [] ev.op = "unescape"    -> Ret(st, OkV(Unescape(ev.text)))
    [] ev.op = "decl_from_str" ->
         LET d == DeclFromStr(ev.text) IN Ret(st, IF d = None THEN Err ELSE OkV(SerDecl(d[1])))
    [] ev.op = "dtd_from_string" ->
         LET d == DtdFromString(ev.text) IN Ret(st, IF d = None THEN Err ELSE OkV(SerDtd(d[1])))
=============================================================================

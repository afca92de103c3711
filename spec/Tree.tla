-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The document object model: nodes, attribute maps, namespaces, and the   *)
(* clean-up that keeps text in normal form.                                *)
(*                                                                         *)
(* Option values are <<>> (nothing) or <<x>>.  Maps are sequences of       *)
(* <<key, value>> sorted by key.  Nodes are                                *)
(*   [k |-> "e", n, p, ns, at, ctx, ch]   element: local name, prefix?,    *)
(*        namespace?, attributes, prefix bindings in scope, children       *)
(*   [k |-> "t", s]  text    [k |-> "c", s]  comment   [k |-> "d", s] CDATA*)
(***************************************************************************)
EXTENDS Escape

None == <<>>
Some(x) == <<x>>

-----------------------------------------------------------------------------
(* maps *)
RECURSIVE MapIdx(_, _, _)
LOCAL MapIdx(m, key, i) ==      \* index of key, or minus the insertion point
  IF i > Len(m) THEN -i
  ELSE IF m[i][1] = key THEN i
  ELSE IF TextLess(key, m[i][1]) THEN -i
  ELSE MapIdx(m, key, i + 1)

MapHas(m, key) == \E i \in 1..Len(m) : m[i][1] = key
MapGet(m, key) == LET i == MapIdx(m, key, 1) IN IF i > 0 THEN Some(m[i][2]) ELSE None
MapPut(m, key, val) ==
  LET i == MapIdx(m, key, 1)
  IN IF i > 0 THEN [m EXCEPT ![i] = <<key, val>>]
     ELSE SubSeq(m, 1, -i - 1) \o <<<<key, val>>>> \o SubSeq(m, -i, Len(m))
MapDel(m, key) == SelectSeq(m, LAMBDA kv : kv[1] # key)
MapOf(pairs) == FoldLeft(LAMBDA m, kv : MapPut(m, kv[1], kv[2]), <<>>, pairs)
(* add the bindings of other that m does not have *)
MapFill(m, other) ==
  IF m = <<>> THEN other
  ELSE FoldLeft(LAMBDA a, kv : IF MapHas(a, kv[1]) THEN a ELSE MapPut(a, kv[1], kv[2]), m, other)

-----------------------------------------------------------------------------
(* nodes *)
TextN(s)    == [k |-> "t", s |-> s]
CommentN(s) == [k |-> "c", s |-> s]
CDataN(s)   == [k |-> "d", s |-> s]

IsElem(x) == x.k = "e"
IsText(x) == x.k = "t"

XMLNS  == S("xmlns")
XMLNSC == S("xmlns:")

TagName(e) == IF e.p = None THEN e.n ELSE e.p[1] \o <<COLON>> \o e.n

(* prefix bindings written on an element: from attributes xmlns:P="..." *)
OwnBindings(at) ==
  LET ds == SelectSeq(at, LAMBDA kv : StartsWith(kv[1], XMLNSC) /\ Len(kv[1]) > 6)
  IN IF ds = <<>> THEN <<>>
     ELSE MapOf([i \in 1..Len(ds) |-> <<SubSeq(ds[i][1], 7, Len(ds[i][1])), ds[i][2]>>])

(* the default namespace an element hands to its children; a prefixed
   element passes on the one it is in (kept in ctx under the empty prefix) *)
Inheritable(e) ==
  IF e.p = None THEN e.ns
  ELSE IF MapHas(e.at, XMLNS) THEN MapGet(e.at, XMLNS) ELSE MapGet(e.ctx, <<>>)

(* Put an element (and, if that changes anything, its descendants) into the
   scope of a parent whose default namespace is pd and whose bindings are pc.
   A namespace once resolved is kept when the element is moved.
   DEVIATION Detached: an element taken out of a tree remembers the bindings
   it had there until it is attached again. *)
RECURSIVE Adopt(_, _, _)
Adopt(e, pd, pc) ==
  LET ns1  == IF e.p = None /\ e.ns = None THEN pd ELSE e.ns
      own  == OwnBindings(e.at)
      ctx1 == IF e.p # None /\ pd # None THEN MapPut(own, <<>>, pd[1]) ELSE own
      ctx2 == MapFill(ctx1, MapDel(pc, <<>>))
      ns2  == IF ns1 = None /\ e.p # None THEN MapGet(ctx2, e.p[1]) ELSE ns1
      e2   == [e EXCEPT !.ns = ns2, !.ctx = ctx2]
  IN IF ns2 = e.ns /\ ctx2 = e.ctx THEN e2
     ELSE LET d == Inheritable(e2)
          IN [e2 EXCEPT !.ch = TLCEval([i \in 1..Len(e2.ch) |->
                 IF IsElem(e2.ch[i]) THEN Adopt(e2.ch[i], d, ctx2) ELSE e2.ch[i]])]

AdoptNode(parent, x) == IF IsElem(x) THEN Adopt(x, Inheritable(parent), parent.ctx) ELSE x

-----------------------------------------------------------------------------
(* Text normal form: adjacent texts are merged, then blank ones dropped.
   DEVIATION EmptyText: an empty text node is not considered blank. *)
MergeTexts(ch) ==
  FoldLeft(LAMBDA acc, x :
             IF IsText(x) /\ Len(acc) > 0 /\ IsText(acc[Len(acc)])
             THEN [acc EXCEPT ![Len(acc)] = TextN(acc[Len(acc)].s \o x.s)]
             ELSE Append(acc, x),
           <<>>, ch)
BlankText(x) == IsText(x) /\ Len(x.s) > 0 /\ IsBlank(x.s)
Cleanup(ch) == SelectSeq(MergeTexts(ch), LAMBDA x : ~BlankText(x))

TextNormal(ch) ==
  /\ \A i \in 1..Len(ch) : ~BlankText(ch[i])
  /\ \A i \in 1..Len(ch) - 1 : ~(IsText(ch[i]) /\ IsText(ch[i + 1]))

-----------------------------------------------------------------------------
(* Building elements *)

(* a bare element with its own declarations resolved: the explicit namespace
   is written into the attributes; without one the attributes are consulted *)
RawElem(name, at, ns, prefix) ==
  LET key == IF prefix = None THEN XMLNS ELSE XMLNSC \o prefix[1]
      at2 == IF ns = None THEN at ELSE MapPut(at, key, ns[1])
      ns2 == IF ns = None THEN MapGet(at, key) ELSE ns
  IN [k |-> "e", n |-> name, p |-> prefix, ns |-> ns2, at |-> at2,
      ctx |-> OwnBindings(at2), ch |-> <<>>]

AppendTo(parent, x) == [parent EXCEPT !.ch = Cleanup(Append(parent.ch, AdoptNode(parent, x)))]
AppendAllTo(parent, xs) ==
  [parent EXCEPT !.ch = Cleanup(parent.ch \o TLCEval([i \in 1..Len(xs) |-> AdoptNode(parent, xs[i])]))]
InsertInto(parent, idx, x) ==       \* idx: 0-based
  [parent EXCEPT !.ch = Cleanup(SubSeq(parent.ch, 1, idx) \o <<AdoptNode(parent, x)>>
                                \o SubSeq(parent.ch, idx + 1, Len(parent.ch)))]

-----------------------------------------------------------------------------
(* What is visible of a node through the API (ctx is internal) *)
RECURSIVE Visible(_)
Visible(x) ==
  IF IsElem(x)
  THEN [k |-> "e", n |-> x.n, p |-> x.p, ns |-> x.ns, at |-> x.at,
        ch |-> TLCEval([i \in 1..Len(x.ch) |-> Visible(x.ch[i])])]
  ELSE x

RECURSIVE Size(_)
Size(x) == IF IsElem(x) THEN 1 + FoldLeft(LAMBDA a, c : a + Size(c), 0, x.ch) ELSE 1

(* All paths (sequences of 1-based child positions) below and including x *)
RECURSIVE Paths(_)
Paths(x) ==
  {<<>>} \cup (IF IsElem(x)
               THEN UNION { { <<i>> \o q : q \in Paths(x.ch[i]) } : i \in 1..Len(x.ch) }
               ELSE {})

RECURSIVE NodeAt(_, _)
NodeAt(x, path) == IF path = <<>> THEN x ELSE NodeAt(x.ch[Head(path)], Tail(path))

RECURSIVE PutAt(_, _, _)
PutAt(x, path, y) ==
  IF path = <<>> THEN y
  ELSE [x EXCEPT !.ch[Head(path)] = PutAt(x.ch[Head(path)], Tail(path), y)]
=============================================================================

------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Reading a tree: text content, predicates, queries, bulk removal.        *)
(* Nodes are identified by their path below the queried element.           *)
(***************************************************************************)
EXTENDS Tree

RECURSIVE TextOf(_)
TextOf(x) ==
  IF ~IsElem(x) THEN x.s
  ELSE Concat([i \in 1..Len(x.ch) |->
                 IF x.ch[i].k \in {"e", "t"} THEN TextOf(x.ch[i]) ELSE <<>>])

(* Predicates: records with a field p *)
Sat(pr, x) ==
  CASE pr.p = "all"      -> TRUE
    [] pr.p = "none"     -> FALSE
    [] pr.p = "kind"     -> x.k = pr.k
    [] pr.p = "name"     -> IsElem(x) /\ x.n = pr.s
    [] pr.p = "attr"     -> IsElem(x) /\ MapHas(x.at, pr.s)
    [] pr.p = "ns"       -> IsElem(x) /\ x.ns = pr.o
    [] pr.p = "prefix"   -> IsElem(x) /\ x.p = pr.o
    [] pr.p = "leafy"    -> IsElem(x) /\ Len(x.ch) = 0
    [] pr.p = "text"     -> TextOf(x) = pr.s
    [] pr.p = "contains" -> pr.s = <<>> \/ ContainsSub(TextOf(x), pr.s)

KidIdx(e, Test(_)) == SelectSeq([i \in 1..Len(e.ch) |-> i], LAMBDA i : Test(e.ch[i]))
KidPaths(e, Test(_)) == LET s == KidIdx(e, Test) IN [i \in 1..Len(s) |-> <<s[i]>>]

(* all descendants in document order *)
RECURSIVE Descendants(_)
Descendants(e) ==
  Concat([i \in 1..Len(e.ch) |->
     <<<<i>>>> \o (IF IsElem(e.ch[i])
                   THEN LET d == Descendants(e.ch[i]) IN TLCEval([j \in 1..Len(d) |-> <<i>> \o d[j]])
                   ELSE <<>>)])
DescPaths(e, Test(_)) == SelectSeq(Descendants(e), LAMBDA q : Test(NodeAt(e, q)))

(* q: the query and its argument; result: a sequence of paths, in document
   order (recursive searches promise no order: compared as sets) *)
RecursiveQueries == {"all_children", "children_recursive", "search", "search_elements",
                     "search_by_name", "search_text", "search_comments"}
QueryResult(e, q) ==
  CASE q.q \in {"children", "children_mut"} -> KidPaths(e, LAMBDA x : TRUE)
    [] q.q \in {"child_elements", "child_elements_mut"} -> KidPaths(e, IsElem)
    [] q.q \in {"by_name", "by_name_mut"} -> KidPaths(e, LAMBDA x : IsElem(x) /\ x.n = q.s)
    [] q.q \in {"first", "first_mut"} ->
         LET a == KidPaths(e, LAMBDA x : IsElem(x) /\ x.n = q.s)
         IN IF a = <<>> THEN <<>> ELSE <<a[1]>>
    [] q.q \in {"by_ns", "by_ns_mut"} -> KidPaths(e, LAMBDA x : IsElem(x) /\ x.ns = q.o)
    [] q.q \in {"by_prefix", "by_prefix_mut"} -> KidPaths(e, LAMBDA x : IsElem(x) /\ x.p = q.o)
    [] q.q \in {"all_children", "children_recursive"} -> Descendants(e)
    [] q.q = "search" -> DescPaths(e, LAMBDA x : Sat(q.pr, x))
    [] q.q = "search_elements" -> DescPaths(e, LAMBDA x : IsElem(x) /\ Sat(q.pr, x))
    [] q.q = "search_by_name" -> DescPaths(e, LAMBDA x : IsElem(x) /\ x.n = q.s)
    [] q.q = "search_text" -> DescPaths(e, LAMBDA x : IsText(x) /\ Sat(q.pr, x))
    [] q.q = "search_comments" -> DescPaths(e, LAMBDA x : x.k = "c" /\ Sat(q.pr, x))

SameResult(q, a, b) ==
  IF q.q \in RecursiveQueries
  THEN Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
  ELSE a = b

-----------------------------------------------------------------------------
(* Bulk removal: [e |-> the element afterwards, n |-> how many were removed] *)
RemoveKids(e, Test(_)) ==
  LET keep == SelectSeq(e.ch, LAMBDA x : ~Test(x))
  IN [e |-> [e EXCEPT !.ch = keep], n |-> Len(e.ch) - Len(keep)]

RECURSIVE RemoveDeep(_, _, _)
RemoveDeep(e, pr, onlyElems) ==
  LET r1 == RemoveKids(e, LAMBDA x : (onlyElems => IsElem(x)) /\ Sat(pr, x))
      sub == TLCEval([i \in 1..Len(r1.e.ch) |->
                IF IsElem(r1.e.ch[i]) THEN RemoveDeep(r1.e.ch[i], pr, onlyElems)
                ELSE [e |-> r1.e.ch[i], n |-> 0]])
  IN [e |-> [r1.e EXCEPT !.ch = TLCEval([i \in 1..Len(sub) |-> sub[i].e])],
      n |-> FoldLeft(LAMBDA a, s : a + s.n, r1.n, sub)]
=============================================================================

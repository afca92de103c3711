------------------------------- MODULE MCBig -------------------------------
(***************************************************************************)
(* The same properties far from the small cases: deep nesting, long lists  *)
(* of children, many attributes, long texts, many references, many DTDs.   *)
(* Dim says what is large and n how large; the sizes lie around the powers *)
(* of two at which implementations change their behaviour.  What the       *)
(* document must turn into is written down in closed form.                 *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Sizes, Long      \* sizes of structures, sizes of texts

VARIABLES dim, n, shown
bvars == <<dim, n, shown>>

Num(i) == S(ToString(i))
Rep(s, k) == Concat([i \in 1..k |-> s])
Fill(k) == [i \in 1..k |-> 97 + (i % 26)]
(* characters of one to four bytes and a blank *)
Mixed(k) == [i \in 1..k |-> << 120, 233, 8364, 128512, 32, 121 >>[1 + (i % 6)]]
RECURSIVE Nest(_, _)
Nest(k, x) == IF k = 0 THEN x ELSE E(S("a"), << Nest(k - 1, x) >>)

(* -- documents: text, and the root in closed form (before adoption) ------- *)
Structures == {"nest", "kids", "mixed", "attrs", "nsdeep", "prefixes", "cdatas", "texts", "prologue", "after"}
Texts == {"text", "refs", "value", "comment", "cdata", "name", "blank", "subset", "key", "uri"}
KidName(i) == S("k") \o Num(i)
DocText ==
  CASE dim = "nest" -> Rep(S("<a>"), n) \o S("x") \o Rep(S("</a>"), n)
    [] dim = "kids" -> S("<r>") \o Concat([i \in 1..n |-> S("<") \o KidName(i) \o S("/>")]) \o S("</r>")
    [] dim = "mixed" -> S("<r>") \o Concat([i \in 1..n |-> S("t") \o Num(i) \o S("<!--c-->")]) \o S("</r>")
    [] dim = "attrs" -> S("<r") \o Concat([i \in 1..n |-> S(" k") \o Num(i) \o S("='v&amp;") \o Num(i) \o S("'")]) \o S("/>")
    [] dim = "nsdeep" -> S("<p:r xmlns:p='u' xmlns='d'>") \o Rep(S("<a>"), n) \o S("<p:b/>") \o Rep(S("</a>"), n) \o S("</p:r>")
    [] dim = "prefixes" -> S("<r") \o Concat([i \in 1..n |-> S(" xmlns:p") \o Num(i) \o S("='u") \o Num(i) \o S("'")]) \o S(">")
                           \o Concat([i \in 1..n |-> S("<p") \o Num(i) \o S(":e/>")]) \o S("</r>")
    [] dim = "cdatas" -> S("<r>") \o Concat([i \in 1..n |-> S("<![CDATA[<") \o Num(i) \o S("]]>")]) \o S("</r>")
    [] dim = "texts" -> Rep(S("<a>t"), n) \o Rep(S("</a>u"), n - 1) \o S("</a>")
    [] dim = "prologue" -> S("<?xml version='1.0'?>") \o Concat([i \in 1..n |-> S("<!DOCTYPE r") \o Num(i) \o S("><!-- c -->\n")]) \o S("<r/>")
    [] dim = "after" -> S("<r/>") \o Rep(S("<!-- c -->\n"), n)
    [] dim = "text" -> S("<r>") \o Mixed(n) \o S("</r>")
    [] dim = "refs" -> S("<r>") \o Concat([i \in 1..n |-> << S("&amp;lt;"), S("&#x41;"), S("&nope;"), S("&quot;") >>[1 + (i % 4)]]) \o S("</r>")
    [] dim = "value" -> S("<r k='") \o Mixed(n) \o S("&lt;'/>")
    [] dim = "comment" -> S("<r><!--") \o Mixed(n) \o S("-->x</r>")
    [] dim = "cdata" -> S("<r><![CDATA[") \o Mixed(n) \o S("]]></r>")
    [] dim = "name" -> S("<") \o Fill(n) \o S(">x</") \o Fill(n) \o S(">")
    [] dim = "key" -> S("<r ") \o Fill(n) \o S("='v'/>")
    [] dim = "uri" -> S("<p:r xmlns:p='") \o Fill(n) \o S("'><p:a/></p:r>")
    [] dim = "blank" -> S("<r>") \o [i \in 1..n |-> SP] \o S("<a/>") \o [i \in 1..n |-> LF] \o S("x") \o [i \in 1..n |-> TAB] \o S("</r>")
    [] dim = "subset" -> S("<!DOCTYPE r [<!ENTITY e '") \o Mixed(n) \o S("]>'>]><r/>")
PlainOf == S("<r/>")
Elem(nm, p, ns, at, ch) == [k |-> "e", n |-> nm, p |-> p, ns |-> ns, at |-> at, ch |-> ch]
Bare(nm, ch) == Elem(nm, None, None, <<>>, ch)
RECURSIVE Deep(_, _, _)
Deep(k, ns, x) == IF k = 0 THEN x ELSE Elem(S("a"), None, ns, <<>>, << Deep(k - 1, ns, x) >>)
RECURSIVE TextNest(_)
TextNest(k) == IF k = n THEN Bare(S("a"), << T("t") >>) ELSE Bare(S("a"), << T("t"), TextNest(k + 1), T("u") >>)
Sorted(at) == MapOf(at)
Expected ==
  CASE dim = "nest" -> Deep(n - 1, None, Bare(S("a"), << T("x") >>))
    [] dim = "kids" -> Bare(S("r"), [i \in 1..n |-> Bare(KidName(i), <<>>)])
    [] dim = "mixed" -> Bare(S("r"), [i \in 1..2 * n |-> IF i % 2 = 1 THEN TextN(S("t") \o Num((i + 1) \div 2)) ELSE C("c")])
    [] dim = "attrs" -> Elem(S("r"), None, None, Sorted([i \in 1..n |-> << S("k") \o Num(i), S("v&") \o Num(i) >>]), <<>>)
    [] dim = "nsdeep" -> Elem(S("r"), Some(S("p")), Some(S("u")), Sorted(<< <<S("xmlns:p"), S("u")>>, <<S("xmlns"), S("d")>> >>),
                              << Deep(n, Some(S("d")), Elem(S("b"), Some(S("p")), Some(S("u")), <<>>, <<>>)) >>)
    [] dim = "prefixes" -> Elem(S("r"), None, None, Sorted([i \in 1..n |-> << S("xmlns:p") \o Num(i), S("u") \o Num(i) >>]),
                              [i \in 1..n |-> Elem(S("e"), Some(S("p") \o Num(i)), Some(S("u") \o Num(i)), <<>>, <<>>)])
    [] dim = "cdatas" -> Bare(S("r"), [i \in 1..n |-> CDataN(S("<") \o Num(i))])
    [] dim = "texts" -> TextNest(1)
    [] dim \in {"prologue", "after", "subset"} -> Bare(S("r"), <<>>)
    [] dim = "text" -> Bare(S("r"), << TextN(Mixed(n)) >>)
    [] dim = "refs" -> Bare(S("r"), << TextN(Concat([i \in 1..n |-> << S("&lt;"), S("A"), S("&nope;"), S("\"") >>[1 + (i % 4)]])) >>)
    [] dim = "value" -> Elem(S("r"), None, None, << <<S("k"), Mixed(n) \o S("<")>> >>, <<>>)
    [] dim = "comment" -> Bare(S("r"), << CommentN(Mixed(n)), T("x") >>)
    [] dim = "cdata" -> Bare(S("r"), << CDataN(Mixed(n)) >>)
    [] dim = "name" -> Bare(Fill(n), << T("x") >>)
    [] dim = "key" -> Elem(S("r"), None, None, << <<Fill(n), S("v")>> >>, <<>>)
    [] dim = "uri" -> Elem(S("r"), Some(S("p")), Some(Fill(n)), << <<S("xmlns:p"), Fill(n)>> >>, << Elem(S("a"), Some(S("p")), Some(Fill(n)), <<>>, <<>>) >>)
    [] dim = "blank" -> Bare(S("r"), << Bare(S("a"), <<>>), TextN([i \in 1..n |-> LF] \o S("x") \o [i \in 1..n |-> TAB]) >>)

ParseEv == IF Focus = "C16" /\ dim \in {"prologue", "subset"} THEN [op |-> "parse", text |-> DocText, plain |-> PlainOf]
           ELSE [op |-> "parse", text |-> DocText]
(* texts that are the same but for the last thing in them *)
Damaged == SubSeq(DocText, 1, Len(DocText) - 1)

(* -- trees ------------------------------------------------------------------ *)
(* the tree to build: namespaces as given explicitly *)
TreeOf ==
  CASE dim = "nest" -> Nest(n, T("x"))
    [] dim = "kids" -> E(S("r"), [i \in 1..n |-> IF i % 5 = 0 THEN C("c") ELSE IF i % 3 = 0 THEN EN(S("b"), None, Some(S("u")), <<>>, <<>>) ELSE E(S("a"), <<>>)])
    [] dim = "mixed" -> E(S("r"), [i \in 1..n |-> IF i % 2 = 0 THEN T("t") ELSE C("c")])
    [] dim = "attrs" -> EN(S("r"), None, None, [i \in 1..n |-> << S("k") \o Num((7 * i) % 1009), Num(i) >>], << E(S("a"), <<>>) >>)
    [] dim = "nsdeep" -> EN(S("r"), Some(S("p")), Some(S("u")), <<>>, << Nest(n, EN(S("b"), Some(S("p")), None, <<>>, <<>>)) >>)
    [] dim = "texts" -> LET RECURSIVE N(_)
                            N(k) == E(S("a"), IF k = 0 THEN << T("t") >> ELSE << T("t"), N(k - 1), T("u") >>) IN N(n)
    [] dim = "text" -> E(S("r"), << TextN(Mixed(n)), E(S("a"), <<>>) >>)
    [] dim = "value" -> EN(S("r"), None, None, << <<S("k"), Mixed(n) \o <<QUOT, LT>>>> >>, <<>>)
    [] dim = "comment" -> E(S("r"), << CommentN(Mixed(n)), E(S("a"), <<>>) >>)
    [] dim = "cdata" -> E(S("r"), << CDataN(Mixed(n)) >>)
    [] dim = "name" -> E(Fill(n), << T("x") >>)
Trees == {"nest", "kids", "mixed", "attrs", "nsdeep", "texts", "text", "value", "comment", "cdata", "name"}
B(t) == << [op |-> "build", t |-> 2, tree |-> t] >>
Copy == << [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3] >>
Give(t, x) == [op |-> "build", t |-> t, tree |-> x]
Inside == [i \in 1..n - 1 |-> 1]      \* the innermost element of nest
Kids == Len(Build(TreeOf).ch)
Spots == IF Kids = 0 THEN << 0, 1 >> ELSE << 0, 1, Kids \div 2, Kids - 1, Kids, Kids + 1 >>
Each(f(_)) == Concat([i \in 1..Len(Spots) |-> Copy \o f(Spots[i])])
EditBig ==
  Each(LAMBDA i : << Give(4, E(S("new"), <<>>)), [op |-> "insert", s |-> 3, path |-> <<>>, i |-> i, t |-> 4] >>)
  \o Each(LAMBDA i : << Give(4, T("w")), [op |-> "insert", s |-> 3, path |-> <<>>, i |-> i, t |-> 4] >>)
  \o Each(LAMBDA i : << [op |-> "remove", s |-> 3, path |-> <<>>, i |-> i, t |-> 5] >>)
  \o Each(LAMBDA i : << [op |-> "remove_element", s |-> 3, path |-> <<>>, i |-> i, t |-> 5] >>)
  \o Copy \o << Give(4, T("w")), [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> TRUE] >>
  \o (IF dim = "nest" THEN Copy \o << Give(4, T("w")), [op |-> "append", s |-> 3, path |-> Inside, t |-> 4, boxed |-> FALSE],
                                      [op |-> "remove", s |-> 3, path |-> SubSeq(Inside, 1, n - 2), i |-> 0, t |-> 5] >> ELSE <<>>)
(* the comments go, the texts between them stay and are merged by the next addition *)
MergeBig == (IF dim = "text" THEN << Give(4, TextN(Mixed(n))), Give(5, TextN(<<SP>> \o Mixed(n))), [op |-> "concat", s |-> 4, path |-> <<>>, s2 |-> 5, path2 |-> <<>>, t |-> 6],
                                     [op |-> "concat", s |-> 6, path |-> <<>>, s2 |-> 6, path2 |-> <<>>, t |-> 6] >> ELSE <<>>)
           \o Copy \o << [op |-> "remove_by", s |-> 3, path |-> <<>>, pr |-> [p |-> "kind", k |-> "c"]],
                       Give(4, T("w")), [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> TRUE] >>
KindP(k) == [p |-> "kind", k |-> k]
NameP(s) == [p |-> "name", s |-> S(s)]
BulkBig == Concat([i \in 1..5 |-> LET pr == << KindP("e"), KindP("t"), KindP("c"), NameP("b"), [p |-> "leafy"] >>[i] IN
             Concat([o \in 1..4 |-> Copy \o << [op |-> << "remove_by", "remove_elements", "remove_all", "remove_all_elements" >>[o], s |-> 3, path |-> <<>>, pr |-> pr] >>])])
           \o Copy \o << [op |-> "remove_by_name", s |-> 3, path |-> <<>>, name |-> S("a")] >>
QueryBig ==
  LET q(x) == [op |-> "query", s |-> 2, path |-> <<>>, q |-> x]
      m(x, v) == [op |-> "mark", s |-> 2, path |-> <<>>, q |-> x, key |-> S("m"), val |-> v]
  IN << q([q |-> "children"]), q([q |-> "child_elements"]), q([q |-> "all_children"]), q([q |-> "children_recursive"]),
        q([q |-> "by_name", s |-> S("b")]), q([q |-> "first", s |-> S("b")]), q([q |-> "by_ns", o |-> Some(S("u"))]), q([q |-> "by_prefix", o |-> None]),
        q([q |-> "search", pr |-> KindP("t")]), q([q |-> "search_elements", pr |-> NameP("a")]), q([q |-> "search_by_name", s |-> S("b")]),
        q([q |-> "search_text", pr |-> [p |-> "all"]]), q([q |-> "search_comments", pr |-> [p |-> "all"]]),
        m([q |-> "children_mut"], S("1")), m([q |-> "child_elements_mut"], S("2")), m([q |-> "by_name_mut", s |-> S("b")], S("3")),
        m([q |-> "first_mut", s |-> S("b")], S("4")), m([q |-> "by_ns_mut", o |-> None], S("5")), m([q |-> "by_prefix_mut", o |-> None], S("6")) >>
Deepest == LET ds == Descendants(Build(TreeOf)) IN IF ds = <<>> THEN <<>> ELSE ds[Len(ds)]
TextBig == Concat([i \in 1..2 |-> LET p == << <<>>, Deepest >>[i] IN << [op |-> "kind", s |-> 2, path |-> p], [op |-> "text", s |-> 2, path |-> p] >>])
SerBig == [i \in 1..6 |-> [op |-> "ser", s |-> 2, path |-> <<>>, indent |-> << <<>>, <<SP>>, <<SP, SP>>, <<TAB>>, Rep(<<SP>>, 40), Rep(<<TAB>>, 40) >>[i]]]
(* the copy, and the copy with its last and its innermost part changed *)
Eq == [op |-> "eq", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>]
PairBig == Copy \o << Eq, Give(4, E(S("new"), <<>>)), [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> TRUE], Eq >>
           \o Copy \o << [op |-> "set_attr", s |-> 3, path |-> <<>>, key |-> S("k") \o Num((7 * n) % 1009), val |-> S("other")], Eq >>
           \o (IF Deepest # <<>> /\ ~IsElem(NodeAt(Build(TreeOf), Deepest))
               THEN Copy \o << [op |-> "set_content", s |-> 3, path |-> Deepest, text |-> S("other")], Eq >> ELSE <<>>)
(* attributes one by one: set, set again, read, removed *)
Key(i) == S("k") \o Num((7 * i) % 1009)
At(op, i) == [op |-> op, s |-> 2, path |-> <<>>, key |-> Key(i)]
SetAt(i, v) == [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> Key(i), val |-> v]
Some5 == << 1, 2, (n + 1) \div 2, n >>
AttrBig == [i \in 1..n |-> SetAt(i, Num(i))] \o Concat([j \in 1..4 |-> << At("get_attr", Some5[j]), SetAt(Some5[j], Mixed(n)), At("get_attr", Some5[j]),
                                                                        At("remove_attr", Some5[j]), At("get_attr", Some5[j]) >>])
           \o << At("get_attr", n + 1), At("remove_attr", n + 1) >> \o [i \in 1..n |-> At("remove_attr", n + 1 - i)]
(* names and contents: the one character that is wrong is the last *)
New(nm, t) == [op |-> "new", name |-> nm, text |-> None, at |-> <<>>, ns |-> None, prefix |-> None, kids |-> None, t |-> t]
GuardBig ==
  << New(Fill(n), 3), New(Fill(n - 1) \o <<SP>>, 4), New(Fill(n - 1) \o <<233>>, 4), New(Fill(n - 1) \o <<8364>>, 5),
     [op |-> "leaf", k |-> "c", text |-> Mixed(n) \o S("-->"), t |-> 5], [op |-> "leaf", k |-> "c", text |-> Mixed(n) \o S("->"), t |-> 5],
     [op |-> "leaf", k |-> "d", text |-> Mixed(n) \o S("]]>"), t |-> 6], [op |-> "leaf", k |-> "d", text |-> Mixed(n) \o S("]]"), t |-> 6],
     [op |-> "set_content", s |-> 5, path |-> <<>>, text |-> Mixed(n) \o S("-->")], [op |-> "set_content", s |-> 6, path |-> <<>>, text |-> Mixed(n) \o S("]]>y")],
     [op |-> "set_attr", s |-> 3, path |-> <<>>, key |-> Fill(n), val |-> S("v")],
     [op |-> "set_attr", s |-> 3, path |-> <<>>, key |-> Fill(n - 1) \o <<EQ>>, val |-> S("v")] >>
(* strings *)
Str == CASE dim = "text" -> Mixed(n) \o S("<&") [] dim = "refs" -> SubSeq(DocText, 4, Len(DocText) - 4) [] OTHER -> Rep(S("&<>\"'"), n)
StrOps == << "escape", "attr_escape", "text_escape", "unescape" >>
(* reading and writing in pieces *)
Bs == Utf8(DocText)
PieceSizes == << 1, 3, 511, 512, 513, 4096, 100000 >>
Faults == << None, Some(Len(Bs)), Some(Len(Bs) - 1), Some(Len(Bs) \div 2), Some(512), Some(8192) >>
StreamBig == Concat([c \in 1..Len(PieceSizes) |-> [f \in 1..2 |-> [op |-> "stream", bytes |-> Bs, chunk |-> PieceSizes[c], intr |-> << 0, 3 >>[f],
                                                                   fail |-> Faults[1 + ((c + 3 * f) % Len(Faults))]]]])
             \o << [op |-> "stream", bytes |-> SubSeq(Bs, 1, Len(Bs) - 5) \o <<195>> \o SubSeq(Bs, Len(Bs) - 4, Len(Bs)), chunk |-> 512, intr |-> 0, fail |-> None] >>
SinkBig == << [op |-> "parse", text |-> DocText] >>
           \o [c \in 1..Len(PieceSizes) |-> [op |-> "sink", indent |-> None, cap |-> PieceSizes[c], intr |-> (c % 2) * 3,
                                             fail |-> Faults[1 + (c % Len(Faults))], zero |-> c % 2 = 0]]
           \o << [op |-> "fs_reset"], [op |-> "fs_write", path |-> << S("d"), S("f") >>, rel |-> FALSE, indent |-> None],
                 [op |-> "fs_read", path |-> << S("d"), S("f") >>, rel |-> TRUE],
                 [op |-> "parse", text |-> S("<r/>")], [op |-> "fs_write", path |-> << S("d"), S("f") >>, rel |-> TRUE, indent |-> None],
                 [op |-> "fs_read", path |-> << S("d"), S("f") >>, rel |-> FALSE] >>

(* the order of two long contents that differ in the middle, at the end, in length *)
LastC(c) == TLCEval(SubSeq(Mixed(n), 1, n - 1)) \o <<c>>
MiddleC(c) == [Mixed(n) EXCEPT ![(n + 1) \div 2] = c]
Longs == TLCEval(<< Mixed(n), LastC(90), LastC(65536), LastC(65535), MiddleC(33), MiddleC(1114111), Mixed(n) \o <<SP>> >>)
NameLongs == TLCEval(<< Fill(n), SubSeq(Fill(n), 1, n - 1) \o <<65>>, SubSeq(Fill(n), 1, n - 1) \o <<233>>, [Fill(n) EXCEPT ![(n + 1) \div 2] = 66], Fill(n) \o <<97>> >>)
CmpEv == [op |-> "cmp", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>]
CmpPair(x, y) == << Give(2, x), Give(3, y), CmpEv >>
CmpBig ==
  CASE dim = "text" -> LET ls == Longs IN Concat([i \in 1..Len(ls) |-> Concat([j \in 1..Len(ls) |->
         LET a == ls[i]  b == ls[j] IN
         CmpPair(TextN(a), TextN(b)) \o CmpPair(CommentN(a), CommentN(b)) \o CmpPair(CDataN(a), CDataN(b))
         \o << [op |-> "pro_cmp", k |-> "decl", a |-> a, b |-> b], [op |-> "pro_cmp", k |-> "dtd", a |-> a, b |-> b] >>])])
    [] dim = "name" -> LET ls == NameLongs IN Concat([i \in 1..Len(ls) |-> Concat([j \in 1..Len(ls) |->
         CmpPair(E(ls[i], <<>>), E(ls[j], << T("x") >>)) \o CmpPair(E(ls[i], <<>>), E(ls[j], <<>>))])])
    [] OTHER -> B(TreeOf) \o Copy \o << CmpEv, Give(4, E(S("new"), <<>>)), [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> TRUE], CmpEv >>
                \o Copy \o << [op |-> "set_attr", s |-> 3, path |-> <<>>, key |-> S("k") \o Num((7 * n) % 1009), val |-> S("other")], CmpEv >>

Dims ==
  CASE Focus \in {"C01", "C02", "C03", "C04", "C19", "C21"} -> Structures \cup Texts
    [] Focus = "C05" -> {"text", "refs", "value"}
    [] Focus = "C06" -> {"nsdeep", "prefixes", "uri"}
    [] Focus = "C07" -> {"nsdeep"}
    [] Focus \in {"C08"} -> {"kids", "mixed", "nest"}
    [] Focus \in {"C09"} -> {"kids", "mixed", "text"}
    [] Focus = "C10" -> {"kids", "mixed", "nest"}
    [] Focus = "C11" -> {"kids", "mixed", "nest", "attrs"}
    [] Focus = "C12" -> {"name"}
    [] Focus = "C13" -> Trees
    [] Focus = "C14" -> {"text", "value", "kids", "nest"}
    [] Focus = "C15" -> Trees
    [] Focus = "C16" -> {"prologue", "subset", "after"}
    [] Focus = "C17" -> {"texts", "text", "nest", "mixed"}
    [] Focus = "C18" -> {"attrs"}
    [] Focus = "C20" -> {"text", "name", "kids", "nest", "attrs"}
R1 == << [op |-> "roundtrip", indent |-> <<SP, SP>>], [op |-> "roundtrip", indent |-> <<TAB>>] >>
One(cmp) == EmitStep(cmp, <<>>, ParseEv, Apply(St0, ParseEv))
Show ==
  CASE Focus = "C01" -> EmitRes("alive", <<>>, ParseEv, Apply(St0, ParseEv).res)
                        /\ EmitRes("alive", <<>>, [op |-> "parse", text |-> Damaged], Err)
    [] Focus = "C02" -> EmitRes("ok", <<>>, ParseEv, Apply(St0, ParseEv).res)
                        /\ EmitRes("ok", <<>>, [op |-> "parse", text |-> Damaged], Apply(St0, [op |-> "parse", text |-> Damaged]).res)
    [] Focus = "C03" -> One("tree")
    [] Focus \in {"C19", "C21"} -> \A i \in 1..3 :
         LET t == << Damaged, DocText \o S("</x>"), SubSeq(DocText, 1, Len(DocText) - 4) \o S("<1>\n</r>") >>[i]
         IN EmitFault(t)
    [] Focus = "C06" -> One("ns")
    [] Focus = "C16" -> One("prolog")
                        /\ EmitScript(<< ParseEv, [op |-> "doc_ser", indent |-> <<SP>>] >>)
    [] Focus = "C04" -> EmitScript(<< ParseEv >> \o R1)
    [] Focus = "C05" -> \A i \in 1..4 : LET ev == [op |-> StrOps[i], text |-> Str] IN EmitRes("res", <<>>, ev, Apply(St0, ev).res)
    [] Focus = "C07" -> EmitRun("ns", <<>>, << Give(3, Nest(n, EN(S("b"), Some(S("p")), None, <<>>, <<>>))), Give(2, EN(S("r"), Some(S("p")), Some(S("u")), << <<S("xmlns"), S("d")>> >>, <<>>)),
                                              [op |-> "append", s |-> 2, path |-> <<>>, t |-> 3, boxed |-> TRUE] >> \o Copy
                                           \o << Give(4, EN(S("z"), None, Some(S("v")), <<>>, <<>>)), [op |-> "append", s |-> 4, path |-> <<>>, t |-> 3, boxed |-> FALSE] >>)
    [] Focus = "C08" -> EmitRun("edit", B(TreeOf), EditBig)
    [] Focus = "C09" -> EmitRun("edit", B(TreeOf), MergeBig \o EditBig)
    [] Focus = "C10" -> EmitRun("edit", B(TreeOf), BulkBig)
    [] Focus = "C11" -> EmitRun("edit", B(TreeOf), QueryBig)
    [] Focus = "C12" -> EmitRun("guard", <<>>, GuardBig)
    [] Focus = "C13" -> EmitRun("res", B(TreeOf), SerBig)
    [] Focus = "C15" -> EmitRun("pair", B(TreeOf), PairBig)
    [] Focus = "C17" -> EmitRun("res", B(TreeOf), TextBig)
    [] Focus = "C20" -> EmitRun("res", <<>>, CmpBig)
    [] Focus = "C18" -> EmitRun("edit", B(E(S("r"), << T("x") >>)), AttrBig)
    [] Focus = "C14" -> EmitScript(<< [op |-> "fs_reset"] >> \o StreamBig) /\ EmitScript(<< [op |-> "fs_reset"] >> \o SinkBig)

(* recorded executions are read back by TLC, whose JSON reader allows a
   depth of 255, two for each level of elements; texts of references and
   the strings of C05 grow when they are escaped *)
Allowed(d, k) ==
  CASE Focus \in {"C04", "C14"} /\ d \in {"nest", "nsdeep", "texts"} -> k <= 110
    [] Focus = "C20" -> k < 10000
    [] d = "refs" \/ Focus = "C05" -> k < 1100
    [] Focus \in {"C14", "C19", "C21"} -> k < 10000
    [] OTHER -> TRUE
Init == dim \in Dims /\ n \in { k \in (IF dim \in Texts THEN Long ELSE Sizes) : Allowed(dim, k) } /\ shown = FALSE
Next == ~shown /\ shown' = TRUE /\ UNCHANGED <<dim, n>> /\ Show
Spec == Init /\ [][Next]_bvars

(* the parser of the specification against the closed forms *)
AsWritten ==
  shown /\ Focus \in {"C01", "C02", "C03", "C04", "C06", "C16"} =>
    LET r == ParseText(DocText) IN r.ok /\ Visible(r.doc.root) = Expected
      /\ (dim = "prologue" => r.doc.dtds = [i \in 1..n |-> S(" r") \o Num(i)])
      /\ (dim \notin {"after", "nest"} => ~ParseText(Damaged).ok)
=============================================================================

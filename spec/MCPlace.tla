------------------------------- MODULE MCPlace -------------------------------
(***************************************************************************)
(* Every string of up to Depth units, put into every place of a document   *)
(* that takes characters: declaration, document type definition, comments, *)
(* names, tags, attribute values, texts, CDATA, between and behind the     *)
(* nodes.  What a property says must hold wherever the characters stand.   *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Depth, NUnits

VARIABLES unitSeq, shown
(* white space and line ends first: whatever tidies texts up touches these *)
Units == << <<LF>>, <<13>>, <<SP>>, <<TAB>>, S("x"), S("&"), S("<"), S(">"), S("-"), S("]"), <<APOS>>, <<QUOT>>, <<160>>, <<65279>>,
            S("&#xA;"), S("&amp;"), <<133>>, <<128512>>, <<0>>, S("?"), S("/"), S("="), S("]]"), S("--"), <<233>>, <<8232>>, S(":") >>
U == Concat([i \in 1..Len(unitSeq) |-> Units[unitSeq[i]]])

(* -- texts with U in one place ---------------------------------------------- *)
Prologues(s) == <<
  S("<?xml version='1.0'") \o s \o S("?><r/>"), s \o S("<?xml version='1.0'?><r/>"), S("<?xml?>") \o s \o S("<!DOCTYPE r><r/>"),
  S("<!DOCTYPE r [<!ENTITY e \"") \o s \o S("\">]><r/>"), S("<!DOCTYPE r") \o s \o S("><r/>"), S("<!DOCTYPE r [") \o s \o S("]>\n<r/>"),
  S("<!DOCTYPE r [<!-- ") \o s \o S(" -->]><!--") \o s \o S("--><r/>"),
  S("<!--c-->") \o s \o S("<r/>"), S("<!--c-->\n") \o s \o S("<!--d--><r/>") >>
Tags(s) == <<
  S("<r") \o s \o S("/>"), S("<r") \o s \o S("k='v'/>"), S("<r k=") \o s \o S("'v'/>"), S("<r>x</r") \o s \o S(">"),
  S("<r") \o s \o S(">x</r") \o s \o S(">"), S("<r><p") \o s \o S(":b xmlns:p") \o s \o S("='u'/></r>") >>
Values(s) == << S("<r k='") \o s \o S("'/>"), S("<r k=\"") \o s \o S("\" l='w'/>"), S("<r><b k='a") \o s \o S("b'/></r>") >>
Insides(s) == <<
  S("<r>") \o s \o S("</r>"), S("<r>t") \o s \o S("<b/></r>"), S("<r><b/>") \o s \o S("<b/>t</r>"),
  S("<r>t<!--") \o s \o S("--></r>"), S("<r><b/><![CDATA[") \o s \o S("]]>t</r>"), S("<r><b>a") \o s \o S("b</b></r>") >>
Behind(s) == << S("<r/>") \o s, S("<r/>") \o s \o S("<!--c-->"), S("<r/><!--") \o s \o S("-->") \o s,
              S("<!--c--><r/>") \o s \o S("<!--d-->"), S("<r/><!--c-->") \o s \o S("<!--d-->") >>
Uris(s) == << S("<p:r xmlns:p='") \o s \o S("'><p:a/><a/></p:r>"), S("<r xmlns='") \o s \o S("'><a/><p:b xmlns:p='") \o s \o S("'><p:c/><d/></p:b></r>") >>
Every(s) == Prologues(s) \o Tags(s) \o Values(s) \o Insides(s) \o Behind(s)
Cmp == CASE Focus = "C01" -> "alive" [] Focus = "C02" -> "ok" [] Focus = "C03" -> "tree" [] Focus = "C06" -> "ns" [] Focus = "C16" -> "prolog" [] OTHER -> "full"
Texts(s) == CASE Focus = "C16" -> Prologues(s) [] Focus = "C03" -> Values(s) \o Insides(s) \o Tags(s) [] Focus = "C06" -> Uris(s) [] OTHER -> Every(s)
EmitText(t) ==
  LET ev == [op |-> "parse", text |-> t] IN
  IF Cmp \in {"alive", "ok"} THEN EmitRes(Cmp, <<>>, ev, [ok |-> ParseText(t).ok])
  ELSE EmitStep(Cmp, <<>>, ev, Apply(St0, ev))
AllTexts(s) == \A i \in 1..Len(Texts(s)) : EmitText(Texts(s)[i])

(* -- trees with U in all places that can hold it ------------------------------ *)
Hold(s, mark) ==
  LET c == IF ContentOk("c", s) THEN << CommentN(s) >> ELSE <<>>
      d == IF ContentOk("d", s) THEN << CDataN(s) >> ELSE <<>>
      t == IF s = <<>> \/ IsBlank(s) THEN <<>> ELSE << TextN(s) >>
      w == << TextN(S("a") \o s \o S("b")) >>
  IN EN(S("r"), None, None, << <<S("k"), s>>, <<S("l"), S("a") \o s \o S("b")>> >>,
        c \o << E(S("b"), d \o c \o << E(S("m"), c) >>) >> \o d \o << E(S("c"), t), E(S("d"), d), E(S("e"), c) >>
        \o << E(S("f"), w \o << E(S("i"), d), E(S("j"), t) >> \o w), E(S("g"), w), mark >>)
Plain(s) == Hold(s, E(S("z"), <<>>))
B(x) == << [op |-> "build", t |-> 2, tree |-> x] >>
Inds == << <<SP, SP>>, <<>>, <<TAB>>, <<SP, SP, SP>> >>
SerEvents == [i \in 1..Len(Inds) |-> [op |-> "ser", s |-> 2, path |-> <<>>, indent |-> Inds[i]]]
Rounds == << [op |-> "roundtrip", indent |-> <<SP, SP>>], [op |-> "roundtrip", indent |-> <<TAB>>], [op |-> "roundtrip", indent |-> <<>>] >>
PathsOf(x) == << <<>> >> \o Descendants(x)
ReadEvents == LET ps == PathsOf(Build(Plain(U)))
              IN Concat([i \in 1..Len(ps) |-> << [op |-> "kind", s |-> 2, path |-> ps[i]], [op |-> "text", s |-> 2, path |-> ps[i]] >>])
(* the same with one thing that is not quite the same string *)
Near(s) == << s \o <<SP>>, <<LF>> \o s, SubSeq(s, 1, Len(s) - 1), s \o s, [i \in 1..Len(s) |-> IF s[i] \in {LF, 13, TAB, 160} THEN SP ELSE s[i]],
              SelectSeq(s, LAMBDA c : c # 13), SelectSeq(s, LAMBDA c : c > 32) >>
One(k, s) == << [op |-> "leaf", k |-> k, text |-> s, t |-> 4], [op |-> "append", s |-> 2, path |-> <<>>, t |-> 4, boxed |-> TRUE] >>
Eq == [op |-> "eq", s |-> 2, path |-> <<>>, s2 |-> 3, path2 |-> <<>>]
EqKind(k) == LET ns == SelectSeq(Near(U), LAMBDA s : ContentOk(k, s)) IN
  << [op |-> "leaf", k |-> k, text |-> U, t |-> 2] >> \o Concat([i \in 1..Len(ns) |-> << [op |-> "leaf", k |-> k, text |-> ns[i], t |-> 3], Eq >>])
EqValue == << [op |-> "build", t |-> 2, tree |-> EN(S("r"), None, Some(S("u") \o U), << <<S("k"), U>> >>, <<>>)] >> \o
  Concat([i \in 1..Len(Near(U)) |->
    << [op |-> "build", t |-> 3, tree |-> EN(S("r"), None, Some(S("u") \o U), << <<S("k"), Near(U)[i]>> >>, <<>>)], Eq,
       [op |-> "build", t |-> 3, tree |-> EN(S("r"), None, Some(S("u") \o Near(U)[i]), << <<S("k"), U>> >>, <<>>)], Eq >>])
EqEvents == EqValue \o (IF ContentOk("c", U) THEN EqKind("c") ELSE <<>>) \o (IF ContentOk("d", U) THEN EqKind("d") ELSE <<>>) \o EqKind("t")
DocTexts(s) == << Prologues(s)[1], Prologues(s)[4], Prologues(s)[5] >>
DocEqs == Concat([i \in 1..3 |-> [j \in 1..Len(Near(U)) |-> [op |-> "doc_eq", a |-> DocTexts(U)[i], b |-> DocTexts(Near(U)[j])[i]]]])
AttrEvents ==
  LET at(op, k) == [op |-> op, s |-> 2, path |-> <<>>, key |-> k]
      put(k, v) == [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> k, val |-> v]
      key == S("k") \o U
  IN << put(S("k"), U), at("get_attr", S("k")), put(S("k"), S("v")), put(S("k"), U), at("get_attr", S("k")), put(key, U), at("get_attr", key), at("get_attr", S("k")),
        at("remove_attr", key), at("get_attr", S("k")), at("remove_attr", S("k")), at("get_attr", S("k")) >>
(* namespaces are compared as they are written *)
Adopted(i) == [op |-> "append", s |-> 2, path |-> <<>>, t |-> 2 + i, boxed |-> i = 1]
NsEvents == << [op |-> "build", t |-> 2, tree |-> EN(S("r"), Some(S("p")), Some(U), << <<S("xmlns"), S("d") \o U>> >>, <<>>)],
               [op |-> "build", t |-> 3, tree |-> EN(S("a"), Some(S("p")), None, <<>>, << E(S("b"), <<>>) >>)],
               [op |-> "build", t |-> 4, tree |-> EN(S("a"), None, Some(U), <<>>, << EN(S("b"), Some(S("p")), None, <<>>, <<>>) >>)],
               Adopted(1), Adopted(2) >>
Pieces(t) == << [op |-> "stream", bytes |-> Utf8(t), chunk |-> 1, intr |-> 0, fail |-> None], [op |-> "stream", bytes |-> Utf8(t), chunk |-> 3, intr |-> 2, fail |-> None] >>
File == << S("d"), S("f") >>
WholeDoc(s) == S("<?xml version='1.0'?>") \o S("<!DOCTYPE r [<!ENTITY e \"") \o SelectSeq(s, LAMBDA c : c # QUOT) \o S("\">]>")
               \o SerNode(Build(Plain(s)), <<SP>>)
IoEvents == << [op |-> "fs_reset"] >> \o Pieces(Prologues(U)[2]) \o Pieces(Insides(U)[1]) \o Pieces(Behind(U)[1])
            \o << [op |-> "parse", text |-> WholeDoc(U)], [op |-> "sink", indent |-> None, cap |-> 7, intr |-> 3, fail |-> None, zero |-> FALSE],
                  [op |-> "fs_write", path |-> File, rel |-> FALSE, indent |-> None], [op |-> "fs_read", path |-> File, rel |-> TRUE],
                  [op |-> "fs_reset"], [op |-> "fs_mk", path |-> << S("f") >>, rel |-> FALSE, kind |-> "file", bytes |-> Utf8(Prologues(U)[2])],
                  [op |-> "fs_read", path |-> << S("f") >>, rel |-> FALSE] >>
ProEvents == Concat([i \in 1..2 |-> << [op |-> "decl_from_str", text |-> S("<?xml") \o U \o S("?>")], [op |-> "decl_from_str", text |-> U \o S("<?xml?>") \o U],
                       [op |-> "dtd_from_string", text |-> S("<!DOCTYPE") \o U \o S(">")], [op |-> "dtd_from_string", text |-> U \o S("<!DOCTYPE r>") \o U] >>])

Show ==
  CASE Focus \in {"C01", "C02", "C03", "C06"} -> AllTexts(U)
    [] Focus = "C16" -> AllTexts(U) /\ EmitRun("res", <<>>, ProEvents)
                        /\ \A i \in {1, 4} : LET t == Prologues(U)[i] IN
                             ParseText(t).ok => EmitScript(<< [op |-> "parse", text |-> t], [op |-> "doc_ser", indent |-> <<SP>>] >>)
    [] Focus = "C04" -> EmitScript(<< [op |-> "parse", text |-> WholeDoc(U)] >> \o Rounds \o B(Plain(U)) \o << [op |-> "doc_new", t |-> 2] >> \o Rounds)
    [] Focus = "C07" -> EmitRun("ns", <<>>, NsEvents)
    [] Focus = "C13" -> EmitRun("res", B(Plain(U)), SerEvents)
    [] Focus = "C14" -> EmitScript(IoEvents)
    [] Focus = "C15" -> EmitRun("pair", <<>>, EqEvents) /\ EmitRun("res", <<>>, DocEqs)
    [] Focus = "C17" -> EmitRun("res", B(Plain(U)), ReadEvents)
    [] Focus = "C18" -> EmitRun("edit", B(E(S("r"), << T("x") >>)), AttrEvents)
    [] Focus \in {"C19", "C21"} -> \A i \in 1..Len(Every(U)) : EmitFault(Every(U)[i]) /\ EmitFault(Every(U)[i] \o S("</z>"))
Init == unitSeq \in UNION {[1..n -> 1..NUnits] : n \in 0..Depth} /\ shown = FALSE
Next == ~shown /\ shown' = TRUE /\ UNCHANGED unitSeq /\ Show
Spec == Init /\ [][Next]_<<unitSeq, shown>>

(* the characters come through as they are, or decoded once where references count *)
ThroughAt(t, want(_)) == LET r == ParseText(t) IN r.ok => want(r.doc.root)
NoneOf(cs) == \A i \in 1..Len(U) : U[i] \notin cs
Through ==
  /\ NoneOf({APOS}) => ParseText(Values(U)[1]).ok /\ ThroughAt(Values(U)[1], LAMBDA r : r.at = << <<S("k"), Unescape(U)>> >>)
  /\ NoneOf({LT}) => ParseText(Insides(U)[6]).ok /\ ThroughAt(Insides(U)[6], LAMBDA r : TextOf(r) = Unescape(S("a") \o U \o S("b")))
  /\ ContentOk("c", U) => ParseText(Insides(U)[4]).ok /\ ThroughAt(Insides(U)[4], LAMBDA r : r.ch[2] = CommentN(U))
  /\ ContentOk("d", U) => ParseText(Insides(U)[5]).ok /\ ThroughAt(Insides(U)[5], LAMBDA r : r.ch[2] = CDataN(U))
  /\ NoneOf({QUOT}) => ParseText(Prologues(U)[4]).ok /\ ParseText(Prologues(U)[4]).doc.dtds = << S(" r [<!ENTITY e \"") \o U \o S("\">]") >>
=============================================================================

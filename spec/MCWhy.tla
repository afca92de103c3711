------------------------------- MODULE MCWhy -------------------------------
(***************************************************************************)
(* C21: what kind of error every failing entry point returns: names,       *)
(* contents, missing places, casts, missing children, faults of readers    *)
(* and writers.  The same event is also carried out where it succeeds.     *)
(***************************************************************************)
EXTENDS Vec
CONSTANT MaxCh      \* children of the element that is indexed

VARIABLES family, member, said
vars == <<family, member, said>>

Odd == << S(""), S("1"), S("-a"), S(" a"), S("a b"), S("a:b"), S(":"), S("a:"), S(":a"), S("a>"), <<215>>, <<97, 8192>>, <<233>>, S("a"), S("_"), <<128512>>, S("xmlns"), S("xml") >>
Ctors == << "new", "name", "attrs", "text", "attrs_text", "attrs_kids", "kids" >>
Making == [op |-> "new", ctor |-> "new", name |-> S("a"), text |-> None, at |-> <<>>, ns |-> None, prefix |-> None, kids |-> None]
WithAt(c) == c \in {"new", "attrs", "attrs_text", "attrs_kids"}
WithText(c) == c \in {"text", "attrs_text"}
ByCtor(c, n) == [Making EXCEPT !.ctor = c, !.name = n, !.text = IF WithText(c) THEN Some(S("t")) ELSE None]
Names ==
  Concat([c \in 1..Len(Ctors) |-> [i \in 1..Len(Odd) |-> ByCtor(Ctors[c], Odd[i])]])
  \o Concat([c \in 1..Len(Ctors) |-> IF ~WithAt(Ctors[c]) THEN <<>>
       ELSE [i \in 1..Len(Odd) |-> [ByCtor(Ctors[c], S("a")) EXCEPT !.at = << <<S("k"), S("v")>>, <<Odd[i], S("")>> >>]]])
  \o [i \in 1..Len(Odd) |-> [Making EXCEPT !.prefix = Some(Odd[i]), !.ns = Some(S("u"))]]
  \o [i \in 1..Len(Odd) |-> [Making EXCEPT !.prefix = Some(Odd[i]), !.ns = Some(S("u")), !.at = << <<S("1"), S("v")>> >>]]
  \o [i \in 1..Len(Odd) |-> [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> Odd[i], val |-> S("<&'\"")]]

Parts == << S(""), S("-"), S("--"), S("->"), S("-->"), S("]]"), S("]>"), S("]]>"), S(">"), S("x-->"), S("]]>]]>"), S("x") >>
Held == E(S("r"), << C("c"), D("d"), T("t"), E(S("e"), <<>>) >>)
Contents ==
  Concat([i \in 1..Len(Parts) |->
    << [op |-> "leaf", k |-> "c", text |-> Parts[i]], [op |-> "leaf", k |-> "d", text |-> Parts[i]], [op |-> "leaf", k |-> "t", text |-> Parts[i]],
       [op |-> "set_content", s |-> 2, path |-> <<1>>, text |-> Parts[i]], [op |-> "set_content", s |-> 2, path |-> <<2>>, text |-> Parts[i]] >>])

(* children: every row of up to MaxCh of element, text, comment, CDATA *)
Kinds4 == << E(S("a"), <<>>), C("c"), D("d"), E(S("b"), << T("t"), E(S("c"), <<>>) >>) >>
RECURSIVE Rows(_)
Rows(n) == IF n = 0 THEN << <<>> >>
           ELSE LET less == Rows(n - 1) IN less \o Concat([i \in 1..Len(less) |-> IF Len(less[i]) < n - 1 THEN <<>> ELSE [k \in 1..4 |-> Append(less[i], Kinds4[k])]])
AllRows == Rows(MaxCh)
Places(row) ==
  Concat([i \in 1..Len(row) + 4 |->
    LET ix == IF i = Len(row) + 4 THEN 1000000000 ELSE i - 1
    IN << [op |-> "insert", s |-> 2, path |-> <<>>, i |-> ix], [op |-> "remove", s |-> 2, path |-> <<>>, i |-> ix], [op |-> "remove_element", s |-> 2, path |-> <<>>, i |-> ix] >>])

Casts == Concat([p \in 1..5 |-> [k \in 1..4 |-> [op |-> "cast", s |-> 2, path |-> IF p = 5 THEN <<>> ELSE <<p>>, k |-> (<<"e", "t", "c", "d">>)[k]]]])
         \o [i \in 1..Len(Odd) |-> [op |-> "first", s |-> 2, path |-> <<>>, name |-> Odd[i]]]
         \o << [op |-> "first", s |-> 2, path |-> <<>>, name |-> S("e")], [op |-> "first", s |-> 2, path |-> <<>>, name |-> S("r")],
               [op |-> "first", s |-> 2, path |-> <<4>>, name |-> S("e")] >>

Fragments == << S(""), S("<?"), S("?>"), S("<?xml?>"), S("<?xml version='1.0'?>"), S(" <?a?> "), S("xml"), S("<?xml>"), S("<xml?>"), S("<!DOCTYPE>"), S("<!DOCTYPE a>"), S("<!DOCTYPE"),
  S("<!doctype a>"), S("DOCTYPE a>"), S("<!DOCTYPE a [<!ELEMENT a>]>"), S("<!DOCTYPEa>"), S(">"), S("<!>") >>
Strings2 == Concat([i \in 1..Len(Fragments) |-> << [op |-> "decl_from_str", text |-> Fragments[i]], [op |-> "dtd_from_string", text |-> Fragments[i]] >>])

Sources == << S("<a/>"), S("<?xml version='1.0'?><a>x</a>"), S("<a>") \o <<233>> \o S("</a>"), S("<a"), S("<a><![X[]]></a>"), S("<1/>"), S(""), S("x") >>
Streams ==
  Concat([i \in 1..Len(Sources) |->
    Concat([e \in 1..Len(IoKinds) |->
       LET n == Len(Utf8(Sources[i])) IN
       [f \in 1..4 |-> [op |-> "stream", text |-> Sources[i], junk |-> e % 3 = 0, chunk |-> 1 + ((e + f) % 3),
                        fail |-> CASE f = 1 -> None [] f = 2 -> Some(0) [] f = 3 -> Some(n \div 2) [] OTHER -> Some(n), err |-> e - 1]]])])
Written == << S("<a/>"), S("<?xml version='1.0'?><!DOCTYPE a><a><b>x</b>y</a>"), S("<a k='") \o <<233>> \o S("'/>") >>
Sinks ==
  Concat([i \in 1..Len(Written) |->
    Concat([e \in 1..Len(IoKinds) |->
       LET n == Len(Utf8(SerDoc(ParseText(Written[i]).doc, TwoSpaces))) IN
       [f \in 1..5 |-> [op |-> "sink", text |-> Written[i], zero |-> e % 4 = 0, chunk |-> 1 + ((e + f) % 3),
                        fail |-> CASE f = 1 -> None [] f = 2 -> Some(0) [] f = 3 -> Some(n \div 2) [] f = 4 -> Some(n - 1) [] OTHER -> Some(n), err |-> e - 1]]])])

Single == << Names, Contents, Casts, Strings2, Streams, Sinks, << [op |-> "no_file"] >> >>
HostOf(f) == << [op |-> "build", t |-> 2, tree |-> IF f <= Len(Single) THEN Held ELSE E(S("r"), AllRows[f - Len(Single)])] >>
EventsOf(f) == IF f <= Len(Single) THEN Single[f] ELSE Places(AllRows[f - Len(Single)])

Init == family \in 1..Len(Single) + Len(AllRows) /\ member = 0 /\ said = <<>>
Next == /\ member < Len(EventsOf(family))
        /\ member' = member + 1 /\ UNCHANGED family
        /\ LET ev == EventsOf(family)[member'] IN EmitWhy(HostOf(family), ev) /\ said' = Some(WhyOf(RunAll(St0, HostOf(family)), ev))
Spec == Init /\ [][Next]_vars

(* what is told is always something: success says nothing, failure names a kind *)
Told == said # None => (said[1].ok <=> said[1].kinds = <<>>) /\ (said[1].nums # <<>> <=> (Len(said[1].kinds) = 1 /\ said[1].kinds[1] = "index"))
(* and agrees with what the operation does *)
AsDone ==
  (said # None /\ family > Len(Single)) =>
    LET ev == EventsOf(family)[member] st == RunAll(St0, HostOf(family))
        e == IF ev.op = "insert" THEN [op |-> "insert", s |-> 2, path |-> <<>>, i |-> ev.i, t |-> 3] ELSE ev
    IN said[1].ok => ev.i <= Len(Target(st, ev).ch)
=============================================================================

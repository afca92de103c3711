------------------------------- MODULE MCName -------------------------------
(***************************************************************************)
(* Which code points may begin and continue a name: at every boundary of   *)
(* the XML 1.0 name grammar (written out again here, as a table) and for   *)
(* all of Unicode in blocks.  Mode "api": every entry point that takes a   *)
(* name.  Mode "text": the same names in a parsed text.                    *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Mode, From, To, Step      \* From > To: the boundaries; else blocks of Step code points

Starts == { <<58,58>>, <<65,90>>, <<95,95>>, <<97,122>>, <<192,214>>, <<216,246>>, <<248,767>>, <<880,893>>, <<895,8191>>, <<8204,8205>>,
  <<8304,8591>>, <<11264,12271>>, <<12289,55295>>, <<63744,64975>>, <<65008,65533>>, <<65536,983039>> }
More == { <<45,45>>, <<46,46>>, <<48,57>>, <<183,183>>, <<768,879>>, <<8255,8256>> }
In(c, rs) == \E r \in rs : r[1] <= c /\ c <= r[2]
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
Edges == 0..127 \cup UNION { {r[1] - 1, r[1], r[2], r[2] + 1} : r \in Starts \cup More }
         \cup {128, 133, 160, 5760, 8192, 8232, 8287, 12288, 65279, 65535, 1114111}
Todo == IF From > To THEN { c \in Edges : Scalar(c) }
        ELSE { c \in { From + Step * k : k \in 0..((To - From) \div Step) } : TRUE }
Block == IF From > To THEN 1 ELSE Step

VARIABLES cp, finished
vars == <<cp, finished>>

Accept(s) == /\ s # <<>> /\ In(s[1], Starts) /\ s[1] # 58
             /\ \A i \in 2..Len(s) : In(s[i], Starts \cup More)
Spellings(c) == << <<c>>, <<97, c>>, <<c, 97>>, <<97, c, 98>> >>

NA == S("a")
New(name, p, at) == [op |-> "new", name |-> name, text |-> None, at |-> at, ns |-> None, prefix |-> p, kids |-> None, t |-> 3]
ApiEvents(s) ==
  << New(s, None, <<>>), New(NA, Some(s), <<>>), New(NA, None, << <<s, S("v")>> >>),
     [op |-> "set_attr", s |-> 2, path |-> <<>>, key |-> s, val |-> S("v")] >>
TextEvents(s) ==
  << [op |-> "parse", text |-> <<LT>> \o s \o S("/>")],
     [op |-> "parse", text |-> <<LT>> \o s \o S("></") \o s \o <<GT>>],
     [op |-> "parse", text |-> S("<a ") \o s \o S("='v'/>")],
     [op |-> "parse", text |-> S("<a><b ") \o s \o S(" = \"v\"></b></a>")],
     [op |-> "parse", text |-> S("<p:") \o s \o S(" xmlns:p='u'/>")] >>
Each(c) == IF ~Scalar(c) \/ (c = 5760 /\ Mode = "text") THEN <<>>      \* U+1680: known finding
           ELSE Concat([k \in 1..4 |-> IF Mode = "api" THEN ApiEvents(Spellings(c)[k])
                                       ELSE IF Block > 1 /\ k # 3 THEN <<>> ELSE TextEvents(Spellings(c)[k])])
Light(c) == IF ~Scalar(c) \/ (c = 5760 /\ Mode = "text") THEN <<>>
            ELSE IF Mode = "api" THEN << New(<<c>>, None, <<>>), New(<<97, c>>, None, <<>>) >>
            ELSE << [op |-> "parse", text |-> <<LT, c>> \o S("/>")], [op |-> "parse", text |-> <<LT, 97, c, 97>> \o S("/>")] >>
Events(c) == IF Block = 1 THEN Each(c) ELSE Concat([k \in 1..Block |-> Light(c + k - 1)])

Init == cp \in Todo /\ finished = FALSE
Next == /\ ~finished /\ finished' = TRUE /\ UNCHANGED cp
        /\ EmitRun(IF Mode = "api" THEN "guard" ELSE "ok", << [op |-> "build", t |-> 2, tree |-> E(NA, <<>>)] >>, Events(cp))
Spec == Init /\ [][Next]_vars

(* the specification's character classes are those of the table *)
Table ==
  \A k \in 0..Block - 1 : LET c == cp + k IN
    /\ Scalar(c) => \A s \in ToSet(Spellings(c)) : IsApiName(s) = Accept(s)
    /\ Scalar(c) /\ Block = 1 => (ParseText(<<LT>> \o <<c>> \o S("/>")).ok <=> Accept(<<c>>))
=============================================================================

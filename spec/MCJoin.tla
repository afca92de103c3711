------------------------------- MODULE MCJoin -------------------------------
(***************************************************************************)
(* C09: texts that become neighbours are joined character by character,    *)
(* whatever stands at the seam.  Every sequence of up to MaxParts texts    *)
(* over fragments with white space, markup and references at the ends,     *)
(* joined in every way in which texts can become neighbours.               *)
(***************************************************************************)
EXTENDS Vec
CONSTANT MaxParts

VARIABLES parts
Ends == << S("x"), <<LF>>, <<SP>>, S("a") \o <<LF>>, <<LF>> \o S("b"), S("a "), S(" b"), <<13>>, <<TAB>>, <<160>>, S("&"), S("amp;"), S("&l"), S("t;"), S("]]"), S(">"), <<769>>, <<8205>>, <<128512>>,
  S("-"), S("a") \o <<13>>, <<LF, LF>>, <<8232>>, <<65279>> >>
Joined == Concat(parts)
NotBlank == \E i \in 1..Len(Joined) : ~IsWs(Joined[i])
Empty == E(S("r"), <<>>)
Framed == E(S("r"), << E(S("a"), <<>>), E(S("b"), <<>>) >>)
Leafs == [i \in 1..Len(parts) |-> [op |-> "leaf", k |-> "t", text |-> parts[i], t |-> 3 + i]]
Slots4(k) == [i \in 1..k |-> 3 + i]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Hold(tree) == << [op |-> "build", t |-> 2, tree |-> tree] >>
Ways ==
  LET n == Len(parts) IN
  << (* all at once, at the end, between two elements, at the beginning from behind *)
     << Hold(Empty), Leafs \o << [op |-> "append_all", s |-> 2, path |-> <<>>, ts |-> Slots4(n)] >> >>,
     << Hold(Framed), Leafs \o [i \in 1..n |-> [op |-> "insert", s |-> 2, path |-> <<>>, t |-> 4 + n - i, i |-> 1]] >>,
     << Hold(Framed), Leafs \o [i \in 1..n |-> [op |-> "insert", s |-> 2, path |-> <<>>, t |-> 4 + n - i, i |-> 0]] >>,
     << Hold(Framed), Leafs \o << [op |-> "append_all", s |-> 2, path |-> <<>>, ts |-> Slots4(n)] >> >> >>
Concats == << Hold(Empty), IF Len(parts) # 2 THEN <<>> ELSE
     << [op |-> "leaf", k |-> "t", text |-> parts[1], t |-> 4], [op |-> "leaf", k |-> "t", text |-> parts[2], t |-> 5],
        [op |-> "concat", s |-> 4, path |-> <<>>, s2 |-> 5, path2 |-> <<>>, t |-> 6] >> >>
Parsed == << Hold(Empty), << [op |-> "parse", text |-> S("<r><q/>") \o Concat([i \in 1..Len(parts) |-> EscapeText(parts[i])]) \o S("</r>")] >> >>
Init == parts = <<>>
Next == /\ Len(parts) < MaxParts
        /\ \E i \in 1..Len(Ends) : parts' = Append(parts, Ends[i])
        /\ \A w \in 1..Len(Ways') : EmitRun("edit", Ways'[w][1], Ways'[w][2])
        /\ Concats'[2] = <<>> \/ EmitRun("edit", Concats'[1], Concats'[2])
        /\ EmitRun("edit", Parsed'[1], Parsed'[2])
Spec == Init /\ [][Next]_parts

(* handed in together, what is there afterwards is the characters, in order,
   or nothing at all when they are all blank *)
Together ==
  parts # <<>> =>
    LET r == RunAll(St0, Ways[1][1] \o Ways[1][2]).sl[2][1].ch
        f == RunAll(St0, Ways[4][1] \o Ways[4][2]).sl[2][1].ch
        p == RunAll(St0, Parsed[2]).sl[1][1].ch
    IN /\ r = (IF NotBlank THEN << TextN(Joined) >> ELSE <<>>)
       /\ SubSeq(f, 3, Len(f)) = r /\ SubSeq(p, 2, Len(p)) = r
=============================================================================

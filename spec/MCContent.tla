----------------------------- MODULE MCContent -----------------------------
(* C12: comment and CDATA contents, all strings of up to Depth fragments, at
   both entry points; and the texts declarations and DTDs are made from. *)
EXTENDS Vec
CONSTANT Depth
Frags == << S("-"), S("->"), S("-->"), S("--"), S(">"), S("]"), S("]]"), S("]]>"), S("]>"), S("x"), S(" "), S("<!--"), S("<![CDATA["), <<233>>, S("!") >>
VARIABLES fragSeq
Content == Concat([i \in 1..Len(fragSeq) |-> Frags[fragSeq[i]]])
Host == E(S("r"), << C("old"), D("old"), T("old") >>)
Events(s) ==
  << [op |-> "leaf", k |-> "c", text |-> s, t |-> 3], [op |-> "leaf", k |-> "d", text |-> s, t |-> 4], [op |-> "leaf", k |-> "t", text |-> s, t |-> 5],
     [op |-> "leaf", k |-> "c", text |-> s, t |-> 6, from |-> TRUE], [op |-> "leaf", k |-> "d", text |-> s, t |-> 7, from |-> TRUE],
     [op |-> "set_content", s |-> 2, path |-> <<1>>, text |-> s],
     [op |-> "set_content", s |-> 2, path |-> <<2>>, text |-> s],
     [op |-> "set_content", s |-> 2, path |-> <<3>>, text |-> s] >>
Init == fragSeq = <<>>
Next == /\ Len(fragSeq) < Depth
        /\ \E i \in 1..Len(Frags) : fragSeq' = Append(fragSeq, i)
        /\ EmitRun("guard", << [op |-> "build", t |-> 2, tree |-> Host] >>, Events(Content'))
Spec == Init /\ [][Next]_fragSeq
(* what is accepted is exactly what comes back from a document *)
Embeds(k) ==
  LET x == [k |-> k, s |-> Content]
      r == ParseText(S("<r><q/>") \o SerLeaf(x) \o S("</r>"))
  IN ContentOk(k, Content) <=> (r.ok /\ Len(r.doc.root.ch) = 2 /\ r.doc.root.ch[2] = x)
Exact == Embeds("c") /\ Embeds("d")
=============================================================================

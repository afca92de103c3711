------------------------------ MODULE MCEscape ------------------------------
(* All strings of up to Depth fragments: escaping, unescaping and the laws. *)
EXTENDS Vec
CONSTANT Depth

Frags == << S("&"), S(";"), S("#"), S("x"), S("amp"), S("lt"), S("&amp;"), S("&lt;"), S("&gt;"),
            S("&apos;"), S("&quot;"), S("&#x41;"), S("&#x26;"), S("&#xD800;"), S("&#x110000;"),
            S("<"), S(">"), S("'"), S("\""), S("4"), S(" "), <<233>>, <<9731>>, <<119070>>, S("&#"), S("z") >>

VARIABLE fragSeq
Init == fragSeq = <<>>
Laws(t) == [f |-> t, a |-> t, t |-> t, clean |-> <<TRUE, TRUE, TRUE>>]
Next == /\ Len(fragSeq) < Depth
        /\ \E i \in 1..Len(Frags) :
             /\ fragSeq' = Append(fragSeq, i)
             /\ LET t == Concat([j \in 1..Len(fragSeq') |-> Frags[fragSeq'[j]]])
                IN /\ EmitRes(IF Focus = "C01" THEN "alive" ELSE "res", <<>>, [op |-> "unescape", text |-> t], OkV(Unescape(t)))
                   /\ EmitRes(IF Focus = "C01" THEN "alive" ELSE "res", <<>>, [op |-> "laws", text |-> t], OkV(Laws(t)))
Spec == Init /\ [][Next]_fragSeq

Text == Concat([j \in 1..Len(fragSeq) |-> Frags[fragSeq[j]]])
Inverses == LawInverseText(Text) /\ LawInverseFull(Text)
CleanOut == LawCleanText(Text) /\ LawCleanFull(Text)
Shrinks == LawShrink(Text) /\ LawIdentity(Text)
=============================================================================

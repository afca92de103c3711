------------------------------- MODULE MCRefs -------------------------------
(* Character references: every boundary of the scalar values, in every
   spelling; and chunks of the whole range (thorough). *)
EXTENDS Vec
CONSTANT Chunk, Chunks     \* code points per chunk (0: boundaries only), chunks

HexDigits == "0123456789abcdef"
HexDigitsUp == "0123456789ABCDEF"
RECURSIVE HexOf(_, _)
HexOf(n, ds) == (IF n < 16 THEN <<>> ELSE HexOf(n \div 16, ds)) \o S(SubSeq(ds, (n % 16) + 1, (n % 16) + 1))

Points == UNION { {b - 1, b, b + 1} : b \in {1, 9, 10, 13, 32, 34, 38, 39, 60, 62, 127, 128, 255, 256, 2047, 2048,
                 4095, 4096, 55295, 55296, 57343, 57344, 65533, 65535, 65536, 1048576, 1114111, 1114112, 16777215, 16777216} }
Spell(n, k) ==
  LET h == HexOf(n, HexDigits)  u == HexOf(n, HexDigitsUp)
  IN CASE k = 1 -> S("&#x") \o h \o S(";")
       [] k = 2 -> S("&#x") \o u \o S(";")
       [] k = 3 -> S("&#x000") \o h \o S(";")
       [] k = 4 -> S("a&#x") \o u \o S("; b;")
       [] k = 5 -> <<9731>> \o S("&#x") \o h \o S(";") \o <<9731>>
       [] k = 6 -> S("&#x") \o h
       [] k = 7 -> S("&#x") \o h \o S("g;")
       [] k = 8 -> S("&amp;#x") \o h \o S(";")
       [] k = 9 -> S("&x") \o h \o S(";")
       [] k = 10 -> S("&#x ") \o h \o S(";")

VARIABLES chunkNo, finished
Init == chunkNo \in (IF Chunk = 0 THEN Points ELSE 0..(Chunks - 1)) /\ finished = FALSE
Next == /\ ~finished /\ finished' = TRUE /\ chunkNo' = chunkNo
        /\ IF Chunk = 0
           THEN \A k \in 1..10 : LET t == Spell(chunkNo, k) IN
                  EmitRes(IF Focus = "C01" THEN "alive" ELSE "res", <<>>, [op |-> "unescape", text |-> t], OkV(Unescape(t)))
           ELSE LET t == Concat([i \in 1..Chunk |-> Spell(chunkNo * Chunk + i - 1, 1)])
                IN EmitRes(IF Focus = "C01" THEN "alive" ELSE "res", <<>>, [op |-> "unescape", text |-> t], OkV(Unescape(t)))
Spec == Init /\ [][Next]_<<chunkNo, finished>>

OneChar == Chunk = 0 /\ IsScalar(chunkNo) => Unescape(Spell(chunkNo, 1)) = <<chunkNo>> /\ Unescape(Spell(chunkNo, 3)) = <<chunkNo>>
Untouched == Chunk = 0 /\ ~IsScalar(chunkNo) => Unescape(Spell(chunkNo, 1)) = Spell(chunkNo, 1)
=============================================================================

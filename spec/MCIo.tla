-------------------------------- MODULE MCIo --------------------------------
(***************************************************************************)
(* Documents and the outside world.                                        *)
(*   Mode "fs"     every history of up to Depth operations (make a         *)
(*                 directory, a file or a device that refuses data; write  *)
(*                 a document; read one) over nested paths                 *)
(*   Mode "stream" readers: every document, piece size, interruption and   *)
(*                 point of failure                                        *)
(*   Mode "utf8"   readers: every short sequence of critical bytes         *)
(*   Mode "sink"   writers: every piece size, interruption, point and kind *)
(*                 of failure                                              *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Mode, Depth, Wide

-----------------------------------------------------------------------------
(* UTF-8, written down independently of Io!ValidUtf8 *)
Utf8Of(c) ==
  CASE c < 128 -> << c >>
    [] c < 2048 -> << 192 + (c \div 64), 128 + (c % 64) >>
    [] c < 65536 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] OTHER -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Bytes(s) == Concat([i \in 1..Len(s) |-> Utf8Of(s[i])])

SmallDoc == S("<r/>")
BigDoc == S("<r k=\"1\">a") \o <<233, 8364, 128512>> \o S("<b/></r>")
BadDoc == S("<r>")
FileKinds == << Bytes(SmallDoc), Bytes(BigDoc), Bytes(BadDoc), <<>>, S("<r>") \o <<195>> \o S("</r>"), S("<r/>") \o <<240, 159, 152>> >>
WriteDocs == << [op |-> "parse", text |-> SmallDoc], [op |-> "parse", text |-> BigDoc] >>
Dumped(k) == Bytes(SerDoc(ParseText(WriteDocs[k].text).doc, TwoSpaces))

Names == << S("a"), S("b x") \o <<233>> >>
RECURSIVE FsPaths(_)
FsPaths(n) == IF n = 0 THEN {} ELSE FsPaths(n - 1) \cup [1..n -> 1..(IF n = 3 THEN 1 ELSE Len(Names))]
Named(p) == [i \in 1..Len(p) |-> Names[p[i]]]

VARIABLES files, steps
vars == <<files, steps>>
Init == files = {} /\ steps = <<>>

(* ---- the file system --------------------------------------------------- *)
Count == Len(SelectSeq(steps, LAMBDA ev : ev.op # "parse"))
Do(evs, f) == steps' = steps \o evs /\ files' = f /\ EmitScript(steps \o evs)
CanMake(p, kind) ==
  IF kind = "dir" THEN ~Blocked(files, p) /\ FsKind(files, p) \in {"none", "dir"}
  ELSE (\A q \in Parents(p) : FsKind(files, q) = "dir") /\ FsKind(files, p) \in (IF kind = "file" THEN {"none", "file"} ELSE {"none"})
MkAll ==
  \E p \in FsPaths(3), kind \in {"dir", "file", "full"}, b \in 1..Len(FileKinds) :
    /\ CanMake(Named(p), kind) /\ (kind # "file" => b = 1)
    /\ Do(<<[op |-> "fs_mk", path |-> Named(p), rel |-> FALSE, kind |-> kind, bytes |-> IF kind = "file" THEN FileKinds[b] ELSE <<>>]>>,
          FsMake(files, Named(p), kind, IF kind = "file" THEN FileKinds[b] ELSE <<>>))
Write ==
  \E p \in FsPaths(3), k \in 1..Len(WriteDocs), rel \in BOOLEAN :
    Do(<<WriteDocs[k], [op |-> "fs_write", path |-> Named(p), rel |-> rel, indent |-> None]>>, FsWrite(files, Named(p), Dumped(k)).fs)
Read ==
  \E p \in FsPaths(3) :
    /\ FsKind(files, Named(p)) # "full"
    /\ Do(<<[op |-> "fs_read", path |-> Named(p), rel |-> (p[1] = 2)]>>, files)
FsNext == Mode = "fs" /\ Count < Depth /\ (MkAll \/ Write \/ Read)

(* the tree is a tree; a written document can be read back; nothing else changed *)
TreeLike == \A x \in files : (\A q \in Parents(x[1]) : FsKind(files, q) = "dir") /\ Cardinality({ y \in files : y[1] = x[1] }) = 1
WriteLaw ==
  \A p \in { Named(q) : q \in FsPaths(3) }, k \in 1..Len(WriteDocs) :
    LET w == FsWrite(files, p, Dumped(k))
    IN /\ w.ok => FsReadable(w.fs, p) /\ FsBytes(w.fs, p) = Dumped(k)
       /\ w.ok <=> ~Blocked(files, p) /\ FsKind(files, p) \in {"none", "file"}
       /\ \A x \in files : x[1] # p => x \in w.fs
       /\ \A x \in w.fs : x \in files \/ x[1] = p \/ (x[1] \in Parents(p) /\ x[2] = "dir")

(* ---- readers and writers ------------------------------------------------ *)
StreamDocs == << SmallDoc, BigDoc, BadDoc, <<>>, <<65279>> \o SmallDoc, S("<?xml version='1.0'?>\n<r>") \o <<8364>> \o S("</r>\n<!-- ") \o <<128512>> \o S(" -->") >>
FailPoints(n) == IF Wide THEN {None} \cup { Some(i) : i \in 0..n + 1 }
            ELSE {None} \cup { Some(i) : i \in {0, 1, n \div 2, n - 1, n, n + 1} \cap 0..n + 1 }
Batch(evs) == steps' = evs /\ files' = files /\ EmitScript(evs)
StreamNext ==
  Mode = "stream" /\ steps = <<>> /\
  \E k \in 1..Len(StreamDocs) : \E fail \in FailPoints(Len(Bytes(StreamDocs[k]))) :
    LET bs == Bytes(StreamDocs[k])
        cs == << 1, 2, 3, 5, 64 >>  is == << 0, 2, 3 >>
    IN Batch(Concat([c \in 1..Len(cs) |-> [i \in 1..Len(is) |-> [op |-> "stream", bytes |-> bs, chunk |-> cs[c], intr |-> is[i], fail |-> fail, err |-> c + 5 * i]]]))
(* byte sequences inside a text *)
Crit == << 0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 243, 244, 245, 255 >>
Wrapped(bs) == S("<r>x") \o bs \o S("y</r>")
Utf8Next ==
  Mode = "utf8" /\ steps = <<>> /\
  \E n \in 0..Depth : \E f \in [1..n -> 1..Len(Crit)] :
    (* three bytes and more: only those that begin like a longer character *)
    LET bs == [i \in 1..n |-> Crit[f[i]]]
    IN /\ n >= 3 => bs[1] >= 224 /\ bs[2] \in 128..191
       /\ n >= 4 => bs[1] >= 240 /\ bs[3] \in {128, 191} /\ bs[4] \in {65, 128, 191, 192}
       /\ Batch([c \in 1..2 |-> [op |-> "stream", bytes |-> Wrapped(bs), chunk |-> (IF c = 1 THEN 1 ELSE 100), intr |-> 0, fail |-> None]])
SinkNext ==
  Mode = "sink" /\ steps = <<>> /\
  \E k \in 1..Len(WriteDocs), zero \in BOOLEAN : \E fail \in FailPoints(Len(Dumped(k))) :
    LET cs == << 1, 2, 7, 1000 >>  is == << 0, 2, 3 >>
        inds == << None, Some(<<>>), Some(<<TAB>>) >>
    IN Batch(<<WriteDocs[k]>> \o Concat([c \in 1..Len(cs) |-> [i \in 1..Len(is) |->
         [op |-> "sink", indent |-> inds[1 + ((c + i) % 3)], cap |-> cs[c], intr |-> is[i], fail |-> fail, zero |-> zero, err |-> c + 5 * i]]]))

Next == FsNext \/ StreamNext \/ Utf8Next \/ SinkNext
Spec == Init /\ [][Next]_vars
ViewFs == IF Mode = "fs" THEN <<files, Count>> ELSE <<steps, 0>>

(* the automaton accepts exactly the encodings of scalar values *)
Utf8Law ==
  Mode = "utf8" /\ steps # <<>> =>
    LET all == steps[1].bytes
        bs == SubSeq(all, 5, Len(all) - 5)
        Scalar(n, s) == \* the code point the n bytes of s stand for, checked by encoding it again
          LET c == CASE n = 1 -> s[1]
                     [] n = 2 -> (s[1] - 192) * 64 + s[2] - 128
                     [] n = 3 -> ((s[1] - 224) * 64 + s[2] - 128) * 64 + s[3] - 128
                     [] n = 4 -> (((s[1] - 240) * 64 + s[2] - 128) * 64 + s[3] - 128) * 64 + s[4] - 128
          IN c >= 0 /\ c <= 1114111 /\ ~(c \in 55296..57343) /\ Utf8Of(c) = s
        RECURSIVE Split(_)
        Split(s) == s = <<>> \/ \E n \in 1..(IF Len(s) < 4 THEN Len(s) ELSE 4) :
                       Scalar(n, SubSeq(s, 1, n)) /\ Split(SubSeq(s, n + 1, Len(s)))
    IN ValidUtf8(bs) = Split(bs)
=============================================================================

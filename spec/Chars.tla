------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters and texts.                                                   *)
(*                                                                         *)
(* A text is a sequence of Unicode code points (natural numbers).  S(str)  *)
(* turns a printable-ASCII TLA+ string literal into a text.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

AsciiFrom32 ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeTable == TLCEval(
  ("\t" :> 9) @@ ("\n" :> 10) @@ ("\r" :> 13) @@
  [ch \in { SubSeq(AsciiFrom32, i, i) : i \in 1..Len(AsciiFrom32) } |->
     31 + CHOOSE i \in 1..Len(AsciiFrom32) : SubSeq(AsciiFrom32, i, i) = ch])

S(str) == TLCEval([i \in 1..Len(str) |-> CodeTable[SubSeq(str, i, i)]])

(* frequently used characters *)
TAB == 9   LF == 10   CR == 13   SP == 32
QUOT == 34 HASH == 35 AMP == 38  APOS == 39
DASH == 45 SLASH == 47 COLON == 58 SEMI == 59
LT == 60   EQ == 61   GT == 62   QM == 63   BANG == 33
RBRACK == 93 LCX == 120

(* Unicode White_Space: what the library treats as blank *)
IsWs(c) == \/ c \in 9..13 \/ c = 32
           \/ c > 127 /\ ( \/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                           \/ c \in 8192..8202 )

(* The XML 1.0 (5th edition) name grammar *)
LOCAL NSRanges == << <<65,90>>, <<95,95>>, <<97,122>>, <<192,214>>, <<216,246>>,
  <<248,767>>, <<880,893>>, <<895,8191>>, <<8204,8205>>, <<8304,8591>>,
  <<11264,12271>>, <<12289,55295>>, <<63744,64975>>, <<65008,65533>>,
  <<65536,983039>> >>
LOCAL NCRanges == << <<45,46>>, <<48,58>>, <<183,183>>, <<768,879>>, <<8255,8256>> >>

LOCAL InRanges(c, rs) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]

(* name characters without / with the colon *)
IsNCStart(c)   == IF c < 128 THEN (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
                             ELSE InRanges(c, NSRanges)
IsNameStart(c) == c = COLON \/ IsNCStart(c)
IsNameChar(c)  == IsNCStart(c) \/ InRanges(c, NCRanges)

(* A name the API accepts: an XML name that does not begin with a colon *)
IsApiName(s) == /\ Len(s) > 0
                /\ IsNCStart(s[1])
                /\ \A i \in 2..Len(s) : IsNameChar(s[i])

-----------------------------------------------------------------------------
(* Searching.  All return 0 when nothing is found. *)

\* first index >= from whose character satisfies Test
FindIf(s, from, Test(_)) ==
  IF from > Len(s) THEN 0
  ELSE SelectInSubSeq(s, from, Len(s), Test)

FindChar(s, from, c) == FindIf(s, from, LAMBDA x : x = c)

MatchAt(s, i, pat) ==
  /\ i + Len(pat) - 1 <= Len(s)
  /\ \A j \in 1..Len(pat) : s[i + j - 1] = pat[j]

RECURSIVE FindSub(_, _, _)
FindSub(s, from, pat) ==
  LET i == FindChar(s, from, pat[1])
  IN IF i = 0 THEN 0
     ELSE IF MatchAt(s, i, pat) THEN i
     ELSE FindSub(s, i + 1, pat)

ContainsSub(s, pat) == FindSub(s, 1, pat) # 0

StartsWith(s, pat) == MatchAt(s, 1, pat)
EndsWith(s, pat)   == Len(s) >= Len(pat) /\ MatchAt(s, Len(s) - Len(pat) + 1, pat)

IsBlank(s) == \A i \in 1..Len(s) : IsWs(s[i])

Trim(s) ==
  LET a == FindIf(s, 1, LAMBDA c : ~IsWs(c))
  IN IF a = 0 THEN <<>>
     ELSE LET b == SelectLastInSeq(s, LAMBDA c : ~IsWs(c)) IN SubSeq(s, a, b)

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Repeat(s, n) == Concat([i \in 1..n |-> s])

(* Order of texts: by code point, as Rust orders strings *)
TextLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      differ == { i \in 1..n : a[i] # b[i] }
  IN IF differ = {} THEN Len(a) < Len(b)
     ELSE LET i == Min(differ) IN a[i] < b[i]

(* Number of bytes of a text in UTF-8 *)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8Enc(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Concat([i \in 1..Len(s) |-> Utf8Enc(s[i])])

(* A Unicode scalar value *)
IsScalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
=============================================================================

------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* Escaping and unescaping of text and attribute values.                   *)
(***************************************************************************)
EXTENDS Chars

E_AMP == S("&amp;")  E_LT == S("&lt;")  E_GT == S("&gt;")
E_APOS == S("&apos;")  E_QUOT == S("&quot;")

EscTextChar(c) == CASE c = AMP -> E_AMP [] c = LT -> E_LT [] c = GT -> E_GT
                    [] OTHER -> <<c>>
EscFullChar(c) == CASE c = AMP -> E_AMP [] c = LT -> E_LT [] c = GT -> E_GT
                    [] c = APOS -> E_APOS [] c = QUOT -> E_QUOT
                    [] OTHER -> <<c>>

NeedsEsc(c) == c \in {AMP, LT, GT, APOS, QUOT}

RECURSIVE EscFrom(_, _, _)
LOCAL EscFrom(s, i, full) ==
  LET j == FindIf(s, i, NeedsEsc)
  IN IF j = 0 THEN SubSeq(s, i, Len(s))
     ELSE SubSeq(s, i, j - 1)
          \o (IF full THEN EscFullChar(s[j]) ELSE EscTextChar(s[j]))
          \o EscFrom(s, j + 1, full)

EscapeText(s) == EscFrom(s, 1, FALSE)  \* character data:  & < >
EscapeFull(s) == EscFrom(s, 1, TRUE)  \* attribute values: & < > ' "

-----------------------------------------------------------------------------
N_AMP == S("amp")  N_LT == S("lt")  N_GT == S("gt")
N_APOS == S("apos")  N_QUOT == S("quot")

HexVal(c) == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87
             ELSE 99

(* The code point denoted by a string of hex digits, or -1: not a number or
   not a Unicode scalar value. *)
HexCode(d) ==
  IF Len(d) = 0 \/ \E i \in 1..Len(d) : HexVal(d[i]) = 99 THEN -1
  ELSE LET nz == FindIf(d, 1, LAMBDA c : c # 48)
           v  == IF nz = 0 THEN <<>> ELSE SubSeq(d, nz, Len(d))
       IN IF Len(v) > 6 THEN -1
          ELSE LET n == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, v)
               IN IF IsScalar(n) THEN n ELSE -1

(* DEVIATION HexRefs: the dialect of this library (pinned by its tests) reads
   both &#N; and &#xN; as hexadecimal; XML reads &#N; as decimal. *)
RefBody(body) == IF Len(body) > 1 /\ body[2] = LCX THEN SubSeq(body, 3, Len(body))
                                                     ELSE SubSeq(body, 2, Len(body))

(* What the text between '&' and ';' stands for: a code point, or -1. *)
EntityCode(body) ==
  IF Len(body) = 0 THEN -1
  ELSE CASE body = N_AMP -> AMP [] body = N_LT -> LT [] body = N_GT -> GT
         [] body = N_APOS -> APOS [] body = N_QUOT -> QUOT
         [] body[1] = HASH -> HexCode(RefBody(body))
         [] OTHER -> -1

(* One left-to-right pass; what was produced is never read again. *)
RECURSIVE UnescFrom(_, _)
LOCAL UnescFrom(s, i) ==
  LET a == FindChar(s, i, AMP)
  IN IF a = 0 THEN SubSeq(s, i, Len(s))
     ELSE LET z == FindChar(s, a + 1, SEMI)
              e == IF z = 0 THEN -1 ELSE EntityCode(SubSeq(s, a + 1, z - 1))
          IN IF z = 0 THEN SubSeq(s, i, Len(s))
             ELSE IF e < 0
               THEN SubSeq(s, i, a) \o UnescFrom(s, a + 1)
               ELSE SubSeq(s, i, a - 1) \o <<e>> \o UnescFrom(s, z + 1)

Unescape(s) == UnescFrom(s, 1)

-----------------------------------------------------------------------------
(* The laws (checked as invariants by MCEscape, and over recorded texts) *)
LawInverseText(s) == Unescape(EscapeText(s)) = s
LawInverseFull(s) == Unescape(EscapeFull(s)) = s
CleanText(e) ==
  \A i \in 1..Len(e) :
    /\ e[i] \notin {LT, GT}
    /\ e[i] = AMP => LET z == FindChar(e, i + 1, SEMI)
                     IN z # 0 /\ EntityCode(SubSeq(e, i + 1, z - 1)) >= 0
CleanFull(e) == CleanText(e) /\ \A i \in 1..Len(e) : e[i] \notin {APOS, QUOT}
LawCleanText(s) == CleanText(EscapeText(s))
LawCleanFull(s) == CleanFull(EscapeFull(s))
(* unescaping never lengthens a text and leaves reference-free text alone *)
LawShrink(s) == Len(Unescape(s)) <= Len(s)
LawIdentity(s) == FindChar(s, 1, AMP) = 0 => Unescape(s) = s
=============================================================================

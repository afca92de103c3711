-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Finding the next tag: where a '<...>' construct begins and ends.        *)
(*                                                                         *)
(* NextTag(text, from) is                                                  *)
(*   [st |-> "none"]                  no '<' at or after from              *)
(*   [st |-> "open", s |-> i]         a '<' at i that is never closed      *)
(*   [st |-> "tag", s |-> i, e |-> j] the construct occupies i..j-1        *)
(***************************************************************************)
EXTENDS Chars

L_COMMENT == S("<!--")       L_COMMENT_END == S("-->")
L_CDATA   == S("<![CDATA[")  L_CDATA_END   == S("]]>")
L_PI      == S("<?")         L_PI_END      == S("?>")
L_MARKUP  == S("<!")         L_CLOSE       == S("</")
L_GT      == S(">")

(* Position of pat at or after i, outside '...' and "..." ; 0 if none *)
RECURSIVE QuoteAwareFind(_, _, _)
QuoteAwareFind(s, i, pat) ==
  LET j == FindIf(s, i, LAMBDA c : c \in {QUOT, APOS, pat[1]})
  IN IF j = 0 THEN 0
     ELSE IF s[j] \in {QUOT, APOS}
       THEN LET z == FindChar(s, j + 1, s[j])
            IN IF z = 0 THEN 0 ELSE QuoteAwareFind(s, z + 1, pat)
       ELSE IF MatchAt(s, j, pat) THEN j ELSE QuoteAwareFind(s, j + 1, pat)

(* Position of the '>' that closes depth 0, counting nested '<' ... '>'
   outside quotes, comments and processing instructions; 0 if none *)
RECURSIVE NestedClose(_, _, _)
NestedClose(s, i, depth) ==
  LET j == FindIf(s, i, LAMBDA c : c \in {QUOT, APOS, LT, GT})
  IN IF j = 0 THEN 0
     ELSE CASE s[j] \in {QUOT, APOS} ->
                 (LET z == FindChar(s, j + 1, s[j])
                  IN IF z = 0 THEN 0 ELSE NestedClose(s, z + 1, depth))
            [] MatchAt(s, j, L_COMMENT) ->
                 (LET z == FindSub(s, j + 4, L_COMMENT_END)
                  IN IF z = 0 THEN 0 ELSE NestedClose(s, z + 3, depth))
            [] MatchAt(s, j, L_PI) ->
                 (LET z == FindSub(s, j + 2, L_PI_END)
                  IN IF z = 0 THEN 0 ELSE NestedClose(s, z + 2, depth))
            [] s[j] = LT -> NestedClose(s, j + 1, depth + 1)
            [] OTHER -> IF depth = 0 THEN j ELSE NestedClose(s, j + 1, depth - 1)

(* Which delimiter rule applies to the construct that starts at i *)
TagKind(s, i) ==
  CASE MatchAt(s, i, L_COMMENT) -> "comment"
    [] MatchAt(s, i, L_PI)      -> "pi"
    [] MatchAt(s, i, L_CDATA)   -> "cdata"
    [] MatchAt(s, i, L_MARKUP)  -> "markup"
    [] MatchAt(s, i, L_CLOSE)   -> "close"
    [] OTHER                    -> "elem"

(* One past the end of the construct of that kind starting at i; 0: unclosed *)
TagEnd(s, i, kind) ==
  LET past(j, n) == IF j = 0 THEN 0 ELSE j + n
  IN CASE kind = "comment" -> past(FindSub(s, i + 4, L_COMMENT_END), 3)
       [] kind = "pi"      -> past(QuoteAwareFind(s, i + 2, L_PI_END), 2)
       [] kind = "cdata"   -> past(FindSub(s, i, L_CDATA_END), 3)
       [] kind = "markup"  -> past(NestedClose(s, i + 2, 0), 1)
       [] OTHER            -> past(QuoteAwareFind(s, i + 1, L_GT), 1)

NextTag(s, from) ==
  LET i == FindChar(s, from, LT)
  IN IF i = 0 THEN [st |-> "none"]
     ELSE LET k == TagKind(s, i)
              e == TagEnd(s, i, k)
          IN IF e = 0 THEN [st |-> "open", s |-> i]
             ELSE [st |-> "tag", s |-> i, e |-> e, kind |-> k]

-----------------------------------------------------------------------------
(***************************************************************************)
(* The grammar of element tags:                                            *)
(*    '<' Name (S Name S? '=' S? (" [^"]* " | ' [^']* '))* S? '/'? '>'     *)
(*    '</' Name S? '>'                                                     *)
(* DEVIATION LenientTags: repeated attribute names are accepted (the last  *)
(* value counts) and attribute values may contain '<' and bare '&'.        *)
(***************************************************************************)
LOCAL At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
LOCAL SkipWs(s, i) ==
  LET j == FindIf(s, i, LAMBDA c : ~IsWs(c)) IN IF j = 0 THEN Len(s) + 1 ELSE j
LOCAL NameEnd(s, i) ==
  IF ~IsNameStart(At(s, i)) THEN 0
  ELSE LET j == FindIf(s, i + 1, LAMBDA c : ~IsNameChar(c))
       IN IF j = 0 THEN Len(s) + 1 ELSE j

BadTag == [kind |-> "bad"]

RECURSIVE AttrsFrom(_, _, _, _)
LOCAL AttrsFrom(s, i, name, acc) ==
  LET n == Len(s)
      j == SkipWs(s, i)
  IN IF j = n /\ s[n] = GT THEN [kind |-> "open", name |-> name, at |-> acc]
     ELSE IF j = n - 1 /\ s[j] = SLASH /\ s[n] = GT
       THEN [kind |-> "self", name |-> name, at |-> acc]
     ELSE IF j = i \/ NameEnd(s, j) = 0 THEN BadTag
     ELSE LET k == NameEnd(s, j)
              e == SkipWs(s, k)
              q == SkipWs(s, e + 1)
          IN IF At(s, e) # EQ \/ At(s, q) \notin {QUOT, APOS} THEN BadTag
             ELSE LET z == FindChar(s, q + 1, s[q])
                  IN IF z = 0 THEN BadTag
                     ELSE AttrsFrom(s, z + 1, name,
                            Append(acc, <<SubSeq(s, j, k - 1), SubSeq(s, q + 1, z - 1)>>))

(* The tag denoted by the slice '<...>' : kind open/self/close/bad,
   its name as written and its (name, raw value) pairs in order *)
TagParse(s) ==
  IF MatchAt(s, 1, L_CLOSE)
  THEN LET k == NameEnd(s, 3)
       IN IF k = 0 THEN BadTag
          ELSE IF SkipWs(s, k) = Len(s) /\ s[Len(s)] = GT
            THEN [kind |-> "close", name |-> SubSeq(s, 3, k - 1)]
            ELSE BadTag
  ELSE LET k == NameEnd(s, 2)
       IN IF k = 0 THEN BadTag ELSE AttrsFrom(s, k, SubSeq(s, 2, k - 1), <<>>)
=============================================================================

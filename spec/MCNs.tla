-------------------------------- MODULE MCNs --------------------------------
(***************************************************************************)
(* Namespaces of parsed documents.  A document is built tag by tag; the    *)
(* scopeStack of the open elements are kept on a stack, and each element's     *)
(* namespace is looked up there (textbook lexical scoping).  The parser    *)
(* must give every element the same namespace.                             *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS MaxElems, Rich

Decls == IF Rich
         THEN << <<>>, <<<<"", "u">>>>, <<<<"", "">>>>, <<<<"p", "u">>>>, <<<<"p", "v">>>>, <<<<"P", "v">>>>,
                 <<<<"", "v">>, <<"p", "w">>>>, <<<<"p", "u">>, <<"P", "v">>>>, <<<<"p", "">>>> >>
         ELSE << <<>>, <<<<"", "u">>>>, <<<<"", "">>>>, <<<<"p", "v">>>>, <<<<"", "v">>, <<"p", "w">>>>, <<<<"P", "u">>>> >>
Pfx == IF Rich THEN {"", "p", "P"} ELSE {"", "p", "P"}

VARIABLES written,      \* written so far
          bare,         \* the same without prefixes and declarations
          openTags,      \* open openTags as written
          scopeStack,    \* their scopeStack: functions from prefixes to namespaces
          expectNs,       \* namespaces of the elements in document order
          count, badRoot     \* elements so far; the root had an undeclared prefix
vars == <<written, bare, openTags, scopeStack, expectNs, count, badRoot>>

Wr(ds) == Concat([i \in 1..Len(ds) |-> S(" xmlns") \o (IF ds[i][1] = "" THEN <<>> ELSE <<COLON>> \o S(ds[i][1]))
                                        \o S("='") \o S(ds[i][2]) \o S("'")])
Over(f, ds) == [x \in DOMAIN f \cup {ds[i][1] : i \in 1..Len(ds)} |->
                  IF \E i \in 1..Len(ds) : ds[i][1] = x THEN ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = x][2] ELSE f[x]]
Outer == IF scopeStack = <<>> THEN [x \in {} |-> ""] ELSE scopeStack[Len(scopeStack)]

Init == written = <<>> /\ bare = <<>> /\ openTags = <<>> /\ scopeStack = <<>> /\ expectNs = <<>> /\ count = 0 /\ badRoot = FALSE

Emit(t) ==
  LET ev == [op |-> "parse", text |-> t, plain |-> bare'] IN EmitStep(IF Focus = "C06" THEN "ns" ELSE "tree", <<>>, ev, Apply(St0, ev))

Local == S(IF count % 2 = 0 THEN "a" ELSE "b")
RECURSIVE AfterColon(_)
AfterColon(n) == IF COLON \in ToSet(n) THEN AfterColon(Tail(n)) ELSE n
Open(p, ds, self, first) ==
  LET nm == (IF p = "" THEN <<>> ELSE S(p) \o <<COLON>>) \o Local
      sc == Over(Outer, ds)
      at == IF first THEN Wr(ds) ELSE S(" k='1'") \o Wr(ds)
  IN /\ count < MaxElems
     /\ count > 0 => openTags # <<>>
     /\ count' = count + 1
     /\ written' = written \o <<LT>> \o nm \o at \o (IF self THEN S("/>") ELSE S(">"))
     /\ bare' = bare \o <<LT>> \o Local \o (IF self THEN S("/>") ELSE S(">"))
     /\ expectNs' = Append(expectNs, IF p \in DOMAIN sc THEN <<sc[p]>> ELSE <<>>)
     /\ badRoot' = (badRoot \/ (count = 0 /\ p # "" /\ p \notin DOMAIN sc))
     /\ IF self THEN UNCHANGED <<openTags, scopeStack>>
        ELSE openTags' = Append(openTags, nm) /\ scopeStack' = Append(scopeStack, sc)
     /\ self /\ openTags = <<>> => Emit(written')
Close ==
  /\ openTags # <<>>
  /\ written' = written \o S("</") \o openTags[Len(openTags)] \o <<GT>>
  /\ bare' = bare \o S("</") \o AfterColon(openTags[Len(openTags)]) \o <<GT>>
  /\ openTags' = SubSeq(openTags, 1, Len(openTags) - 1) /\ scopeStack' = SubSeq(scopeStack, 1, Len(scopeStack) - 1)
  /\ Len(openTags) = 1 => Emit(written')
  /\ UNCHANGED <<expectNs, count, badRoot>>
Next == \/ \E p \in Pfx, i \in 1..Len(Decls), self \in BOOLEAN : Open(p, Decls[i], self, i % 2 = 0)
        \/ Close
Spec == Init /\ [][Next]_vars

RECURSIVE NsOf(_)
NsOf(e) == <<e.ns>> \o Concat([i \in 1..Len(e.ch) |-> NsOf(e.ch[i])])
Lexical ==
  count > 0 /\ openTags = <<>> =>
    LET r == ParseText(written)
    IN IF badRoot THEN ~r.ok
       ELSE /\ r.ok
            /\ LET got == NsOf(r.doc.root)
               IN Len(got) = count /\ \A i \in 1..count : got[i] = IF expectNs[i] = <<>> THEN <<>> ELSE <<S(expectNs[i][1])>>
            /\ Scoped(r.doc.root, <<>>)
=============================================================================

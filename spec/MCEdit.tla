------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* Editing one element: all child lists of up to MaxKids nodes and every   *)
(* edit of them, at every index and beyond.  Slot 2 holds <r> inside       *)
(* <top> (so that neighbours are seen to stay as they are).  steps is the   *)
(* shortest edit sequence found; it is hidden by the VIEW, so each         *)
(* transition of the state graph is one test of the real library.          *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS MaxKids, Palette

Nodes == CASE Palette = "small" -> << T("x"), T(" "), E(S("a"), <<>>), C("c") >>
           [] Palette = "text"  -> << T("x"), T(" "), T("\t y"), TextN(<<>>), TextN(<<160>>), E(S("a"), <<>>), D("d") >>
           [] OTHER -> << T("x"), T(" "), T("y "), TextN(<<>>), E(S("a"), <<>>), E(S("b"), <<T("z")>>), C("c"), D("d") >>

Outer == E(S("top"), << E(S("a"), <<T("q")>>), E(S("r"), <<>>), C("c"), T("w") >>)
RPath == <<2>>

VARIABLES model, steps, latest
vars == <<model, steps, latest>>
ViewSt == model

R(s) == NodeAt(s.sl[2][1], RPath)
(* hand a node in through slot 3, unless the event needs none *)
Give(x) == [op |-> "build", t |-> 3, tree |-> x]

Cmp == CASE Focus = "C09" -> "edit" [] Focus = "C01" -> "alive" [] OTHER -> "edit"
Do(pre, ev) ==       \* pre: events that prepare the operands
  LET s1 == RunAll(model, pre)
      r == Apply(s1, ev)
  IN /\ EmitStep(Cmp, steps \o pre, ev, r)
     /\ model' = [r.st EXCEPT !.sl = [i \in 1..NSLOTS |-> IF i = 2 THEN r.st.sl[2] ELSE None]]
     /\ latest' = [ev |-> ev, kids |-> [i \in 1..Len(pre) |-> pre[i].tree], res |-> r.res,
                 out |-> IF ev.op \in {"remove", "remove_element"} THEN r.st.sl[4] ELSE None]
     /\ steps' = steps \o pre \o <<ev>> \o
          (IF ev.op \in {"remove", "remove_element"} /\ r.res.ok THEN <<[op |-> "drop", t |-> 4]>> ELSE <<>>)

Init == LET b == [op |-> "build", t |-> 2, tree |-> Outer]
        IN steps = <<b>> /\ model = Apply(St0, b).st /\ latest = [ev |-> b, res |-> Ok, kids |-> <<>>, out |-> None]
Len0 == Len(R(model).ch)
Room == Len0 < MaxKids

Adding ==
  \E k \in 1..Len(Nodes) :
     \/ Room /\ Do(<<Give(Nodes[k])>>, [op |-> "append", s |-> 2, path |-> RPath, t |-> 3, boxed |-> k % 2 = 0])
     \/ \E i \in 0..Len0 + 1 : (Room \/ i > Len0)
          /\ Do(<<Give(Nodes[k])>>, [op |-> "insert", s |-> 2, path |-> RPath, t |-> 3, i |-> i])
     \/ Len0 + 2 <= MaxKids /\ \E k2 \in 1..Len(Nodes) :
          Do(<<Give(Nodes[k]), [op |-> "build", t |-> 4, tree |-> Nodes[k2]]>>,
             [op |-> "append_all", s |-> 2, path |-> RPath, ts |-> <<3, 4>>])
Removing ==
  \/ \E i \in 0..Len0 + 1 : Do(<<>>, [op |-> "remove", s |-> 2, path |-> RPath, i |-> i, t |-> 4])
  \/ \E i \in 0..Len(ElemIdx(R(model))) + 1 : Do(<<>>, [op |-> "remove_element", s |-> 2, path |-> RPath, i |-> i, t |-> 4])
  \/ Do(<<>>, [op |-> "clear_children", s |-> 2, path |-> RPath])
Texts == << S("x"), S(" "), <<>>, S(" z ") >>
Setting == \E k \in 1..Len(Texts) : Do(<<>>, [op |-> "set_text", s |-> 2, path |-> RPath, text |-> Texts[k]])
Next == Adding \/ Removing \/ Setting
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* merged texts grow: keep them short *)
Bounded == \A i \in 1..Len(R(model).ch) : IsText(R(model).ch[i]) => Len(R(model).ch[i].s) <= 3

(* the laws, as properties of every step *)
Adds == {"append", "append_all", "insert", "set_text"}
(* C09 *)
NormalStep == latest'.ev.op \in Adds /\ latest'.res.ok => TextNormal(R(model').ch)
Normal == [][NormalStep]_vars
(* the neighbours of the edited element never change *)
Frame == LET t == model.sl[2][1] IN Visible(PutAt(t, RPath, [R(model) EXCEPT !.ch = <<>>])) = Visible(Build(Outer))

(* C08, stated without splicing: a child list read as a sequence of atoms,
   one per non-blank character and one per other node *)
Atoms(c) ==
  Concat([i \in 1..Len(c) |->
            IF IsText(c[i]) THEN LET w == SelectSeq(c[i].s, LAMBDA x : ~IsWs(x)) IN [j \in 1..Len(w) |-> <<"char", w[j]>>]
            ELSE <<<<"node", Visible(c[i])>>>>])
Built(ks) == [i \in 1..Len(ks) |-> Build(ks[i])]
Pre(c, j) == SubSeq(c, 1, j)
Post(c, j) == SubSeq(c, j + 1, Len(c))
PositionalStep ==
  LET l == latest'  b == R(model).ch  a == R(model').ch  elems == ElemIdx(R(model)) IN
  CASE l.ev.op = "insert" ->
         IF l.ev.i > Len(b) THEN ~l.res.ok /\ a = b
         ELSE l.res.ok /\ Atoms(a) = Atoms(Pre(b, l.ev.i)) \o Atoms(Built(l.kids)) \o Atoms(Post(b, l.ev.i))
    [] l.ev.op \in {"append", "append_all"} -> Atoms(a) = Atoms(b) \o Atoms(Built(l.kids))
    [] l.ev.op = "remove" ->
         IF l.ev.i >= Len(b) THEN ~l.res.ok /\ a = b
         ELSE l.res.ok /\ l.out = Some(b[l.ev.i + 1]) /\ a = Pre(b, l.ev.i) \o Post(b, l.ev.i + 1)
    [] l.ev.op = "remove_element" ->
         IF l.ev.i >= Len(elems) THEN ~l.res.ok /\ a = b
         ELSE l.res.ok /\ l.out = Some(b[elems[l.ev.i + 1]])
              /\ a = Pre(b, elems[l.ev.i + 1] - 1) \o Post(b, elems[l.ev.i + 1])
    [] l.ev.op = "clear_children" -> a = <<>>
    [] l.ev.op = "set_text" -> Atoms(a) = Atoms(<<TextN(l.ev.text)>>) /\ Len(a) <= 1
    [] OTHER -> TRUE
Positional == [][PositionalStep]_vars
=============================================================================

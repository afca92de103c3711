------------------------------- MODULE MCSeq -------------------------------
(***************************************************************************)
(* Long child lists: every sequence of up to MaxLen children over a small  *)
(* palette, and on each of them every positional edit (C08, C09), bulk     *)
(* removal (C10) or query (C11), each starting from that sequence.         *)
(***************************************************************************)
EXTENDS MCShape
CONSTANTS MaxLen, Many

VARIABLES row
Items == << EN(NA, None, None, << <<KK, S("1")>> >>, <<>>), E(NB, <<>>), T("x"), C("c"),
            EN(NA, Some(PP), Some(UU), <<>>, <<>>), D("d"), E(S("A"), <<T("y")>>) >>
Row == [i \in 1..Len(row) |-> Items[row[i]]]
Parent == E(S("r"), Row)
RowInit == row = <<>> /\ shape = Root /\ nodes = 0
Built == Build(Parent)
NKids == Len(Built.ch)

Copy == [op |-> "clone", s |-> 2, path |-> <<>>, t |-> 3]
Hand == << [op |-> "build", t |-> 4, tree |-> E(S("new"), <<>>)], [op |-> "build", t |-> 4, tree |-> T("w")],
           [op |-> "build", t |-> 4, tree |-> T(" ")], [op |-> "build", t |-> 4, tree |-> C("new")] >>
Then(evs) == << Copy >> \o evs
EditEvents(x) ==
  LET n == Len(x.ch)  m == Len(ElemIdx(x)) IN
  Concat([i \in 1..n + 2 |-> Then(<< [op |-> "remove", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 5] >>)])
  \o Concat([i \in 1..m + 2 |-> Then(<< [op |-> "remove_element", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 5] >>)])
  \o Concat([i \in 1..n + 2 |-> LET h == Hand[1 + ((i + n) % 4)] IN
              Then(<< h, [op |-> "insert", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 4] >>)])
  \o Then(<< [op |-> "build", t |-> 4, tree |-> T("w")], [op |-> "append", s |-> 3, path |-> <<>>, t |-> 4, boxed |-> TRUE] >>)
  \o Then(<< Hand[1], [op |-> "build", t |-> 5, tree |-> T(" ")], [op |-> "build", t |-> 6, tree |-> T("v")],
             [op |-> "append_all", s |-> 3, path |-> <<>>, ts |-> <<5, 6, 4>>] >>)
(* two removals in a row, and one put back where it was *)
AgainEvents(x) ==
  LET n == Len(x.ch) IN
  Concat([i \in 1..n |-> Then(<< [op |-> "remove", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 5],
                                 [op |-> "insert", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 5],
                                 [op |-> "remove", s |-> 3, path |-> <<>>, i |-> n - i, t |-> 5] >>)])
RowEmit(x) ==
  CASE Focus \in {"C08", "C09"} -> EmitRun("edit", B(Parent'), EditEvents(x) \o (IF Focus = "C08" THEN AgainEvents(x) ELSE <<>>))
    [] Focus = "C10" -> EmitRun("edit", B(Parent'), BulkEvents(<<>>))
    [] Focus = "C11" -> EmitRun("edit", B(Parent'), QueryEvents(<<>>))
    [] Focus = "C17" -> EmitRun("res", B(Parent'), KindEvents(x))
    [] Focus = "C13" -> EmitRun("res", B(Parent'), SerEvents(x))
RowGrow ==
  /\ Len(row) < MaxLen /\ UNCHANGED <<shape, nodes>>
  /\ \E k \in 1..Many : row' = Append(row, k)
  /\ (Items[row'[Len(row')]].k = "t" => Len(row) = 0 \/ Items[row[Len(row)]].k # "t")
  /\ RowEmit(Build(Parent'))
RowSpec == RowInit /\ [][RowGrow]_<<row, shape, nodes>>

(* what an edit does to the list, said with atoms instead of splicing *)
After(evs) == RunAll(St0, B(Parent) \o evs)
RemoveExact ==
  \A i \in 1..NKids :
    LET a == After(<< Copy, [op |-> "remove", s |-> 3, path |-> <<>>, i |-> i - 1, t |-> 5] >>)
    IN /\ a.sl[5] = Some(Built.ch[i])
       /\ \A j \in 1..NKids - 1 : a.sl[3][1].ch[j] = Built.ch[IF j < i THEN j ELSE j + 1]
NthElement ==
  LET es == { i \in 1..NKids : IsElem(Built.ch[i]) } IN
  \A i \in es :
    LET before == Cardinality({ j \in es : j < i })
        a == After(<< Copy, [op |-> "remove_element", s |-> 3, path |-> <<>>, i |-> before, t |-> 5] >>)
    IN a.sl[5] = Some(Built.ch[i]) /\ Len(a.sl[3][1].ch) = NKids - 1
=============================================================================

------------------------------- MODULE MC_R02 -------------------------------
(* Adding reports to each other. *)
\* CONFIG {}
EXTENDS ToolsBase

SA(m, c, l) == [message |-> m, code |-> c, location |-> l]
SAs == {SA("", 0, <<>>), SA("a", 0, <<<<0, 1>>>>), SA("b", 2, <<>>), SA("c", 3, <<<<4, 0>>, <<1, 2>>>>)}
Reports == {[error |-> e, warnings |-> w] : e \in SAs, w \in SeqsUpTo(SAs, IF Deep THEN 3 ELSE 2)}
\* warnings that differ in one thing, or in one place of two
Ws == {SA("a", 4, <<>>), SA("b", 4, <<>>), SA("a", 3, <<>>), SA("a", 4, <<<<0, 1>>>>), SA("a", 4, <<<<1, 1>>>>), SA("a", 4, <<<<0, 2>>>>), SA("a", 4, <<<<0, 1>>, <<4, 2>>>>), SA("a", 4, <<<<3, 1>>, <<4, 2>>>>),
       SA("a", 4, <<<<0, 1>>, <<4, 3>>>>), SA("a", 4, <<<<4, 2>>, <<0, 1>>>>)}
Given == {ws \in SeqsUpTo(Ws, 3) : Deep \/ Len(ws) < 3 \/ Cardinality(Range(ws)) < 3 \/ ws[1].location = ws[2].location}
Fewest(ws) == LET o == Once(ws) IN Range(o) = Range(ws) /\ Len(o) = Cardinality(Range(ws))
Law(a, b, c) == AddReports(AddReports(a, b), c) = AddReports(a, AddReports(b, c))
Init == st = InitTools /\ part \in Parts
Next ==
  \/ \E ws \in Given : /\ Mine(Len(ws) + 3 * Len(Once(ws)))
                     /\ Assert(Fewest(ws), "Once")
                     /\ Do([op |-> "warn", r |-> [error |-> SA("", 0, <<>>), warnings |-> ws]])
  \/ \E a \in Reports, b \in Reports : /\ Mine(Len(a.warnings) + 3 * Len(b.warnings))
                                       /\ Assert(Law(a, b, a) /\ Law(b, a, b), "Law")
                                       /\ Do([op |-> "radd", r |-> a, s |-> b])
Spec == Init /\ [][Next]_vars
=============================================================================

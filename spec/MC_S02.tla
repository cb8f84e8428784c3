------------------------------- MODULE MC_S02 -------------------------------
(* Appending every small set of ranges to every other, and reading every small set from documents of every small length. *)
\* CONFIG {}
EXTENDS ToolsBase

Small(l, n) == {<<i, k>> : i \in 0..l, k \in 0..n}
Sets == SeqsUpTo(Small(IF Deep THEN 4 ELSE 3, 2), 2) \cup SeqsUpTo(Small(1, 1), 3)
Far == {<<0, -1>>, <<2, -1>>, <<2, -2>>, <<2, -3>>, <<-1, 0>>, <<-1, 1>>, <<-1, 2>>, <<3, -4>>, <<-4, 4>>, <<-4, -4>>}
Readable == SeqsUpTo(Small(5, 3), IF Deep THEN 3 ELSE 2) \cup SeqsUpTo({<<0, 1>>, <<1, 2>>} \cup Far, 2)
Letters(n) == [i \in 1..n |-> 64 + i]
\* what both describe of a document that holds all of it
Law(a, b) == MapRanges(AppendRanges(a, b), Letters(12)) = MapRanges(a, Letters(12)) \o MapRanges(b, Letters(12))
Init == /\ part \in Parts
        /\ \/ \E a \in Sets, b \in Sets : Mine(Len(a) + 3 * Len(b)) /\ st = [InitTools EXCEPT !.sets = <<a, b>>]
           \/ \E a \in Readable : Mine(Len(a)) /\ st = [InitTools EXCEPT !.sets = <<a, <<<<9, 9>>>>>>]
Reading == st.sets[2] = <<<<9, 9>>>>
Next ==
  \/ /\ ~Reading /\ Len(st.sets[1]) <= 2 /\ Len(st.sets[2]) <= 2
     /\ Assert(Law(st.sets[1], st.sets[2]), "Law")
     /\ \/ Do([op |-> "rappend", d |-> 1, s |-> 2])
        \/ Do([op |-> "rset", d |-> 1, rs |-> <<<<0, 1>>>>])
  \/ Reading /\ \E n \in 0..(IF Deep THEN 6 ELSE 4) : Do([op |-> "rmap", s |-> 1, doc |-> Letters(n)])
Spec == Init /\ [][Next]_vars
=============================================================================

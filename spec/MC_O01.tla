------------------------------- MODULE MC_O01 -------------------------------
(* Every history of setting options. *)
\* CONFIG {"properties": ["OnlyThatOption"]}
EXTENDS ToolsBase

Init == st = InitTools /\ part = 1
Next == \/ \E i \in 1..5, b \in BOOLEAN : Do([op |-> "opt", i |-> i, b |-> b])
        \/ Do([op |-> "noopt"])
OnlyThatOption == [][Cardinality({i \in 1..5 : st'.opts[i] # st.opts[i]}) <= 1]_vars
Spec == Init /\ [][Next]_vars
=============================================================================

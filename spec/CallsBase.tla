----------------------------- MODULE CallsBase ------------------------------
(* Frame of the exhaustive models of Calls: each prints whole histories.      *)
EXTENDS Calls

CONSTANT Deep

Parts == 1..8
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
JoinLines(ls) == FoldLeft(LAMBDA acc, l : acc \o l \o "\n", "", ls)
Read(t, opts, out) == [op |-> "read", text |-> t, null |-> FALSE, opts |-> opts, out |-> out, sound |-> TRUE]
Check(t, opts, out) == [op |-> "check", text |-> t, null |-> FALSE, opts |-> opts, out |-> out]
ReadTo(t, opts, sopts) == [op |-> "readto", text |-> t, null |-> FALSE, opts |-> opts, sopts |-> sopts, want |-> TRUE]
POpt(i, a) == [op |-> "popts", slot |-> i, act |-> a]
SOpt(i, a) == [op |-> "sopts", slot |-> i, act |-> a]
Write(h, i) == [op |-> "write", h |-> h, sopts |-> i]
Look(h) == [op |-> "look", h |-> h]
Free(h) == [op |-> "free", h |-> h]
Emit(ops) == PrintT("STEP " \o ToJson([ops |-> ops]))
=============================================================================

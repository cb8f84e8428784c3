------------------------------- MODULE MC_E06 -------------------------------
(* Every edit history of a container of each kind, the children kept apart by *)
(* their identity.                                                            *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 5}, "thorough": {"NSlots": 2, "MaxNodes": 6}, "properties": ["Untouched"]}
EXTENDS MCBase

Item(t, x) == IF t = "select" THEN Named(MkC("option", <<>>), x) ELSE MkV("string", x)
Init == slots \in {[InitSlots EXCEPT ![1] = MkC(t, <<>>)] : t \in Listlike} /\ reg = <<>>
T == slots[1].t
N == Len(slots[1].c)
D == [d |-> 1, p |-> <<>>]

Next ==
  \/ \E x \in {"a", "b"} : \/ Do([op |-> "push", el |-> Item(T, x)] @@ D)
                           \/ \E i \in 1..N + 1 : Do([op |-> "ins", i |-> i, el |-> Item(T, x)] @@ D)
  \/ ~IsNil(slots[2]) /\ \/ Do([op |-> "pushs", s |-> 2] @@ D)
                         \/ \E i \in 1..N + 1 : Do([op |-> "inss", i |-> i, s |-> 2] @@ D)
                         \/ Do([op |-> "drop", d |-> 2])
  \/ \E i \in 1..N : \/ Do([op |-> "era", i |-> i] @@ D)
                     \/ Do([op |-> "take", i |-> i, j |-> 2] @@ D)
  \/ \E i \in 1..N + 1 : \E j \in i..N + 1 : Do([op |-> "erange", i |-> i, j |-> j] @@ D)
  \/ Do([op |-> "clr"] @@ D)
  \/ Do([op |-> "lst"] @@ D)
Spec == Init /\ [][Next]_vars

\* the children before and after agree up to one contiguous place
Untouched == [][\E i \in 0..Len(slots[1].c) : \E j \in 0..Len(slots[1].c) - i :
                   LET a == slots[1].c b == slots'[1].c
                   IN  Len(b) >= i + j /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
                       /\ SubSeq(a, Len(a) - j + 1, Len(a)) = SubSeq(b, Len(b) - j + 1, Len(b))
                       /\ (Len(a) - i - j <= 1 \/ Len(b) = i + j)]_vars
=============================================================================

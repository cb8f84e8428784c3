------------------------------- MODULE MC_M02 -------------------------------
(* Writing media types, with every parameter value of a few octets. *)
\* CONFIG {}
EXTENDS ToolsBase

Kinds == {9, 10, 13, 11, 0, 31, 32, 33, 34, 47, 59, 61, 64, 91, 92, 93, 97, 114, 126, 127, 128, 255}
Values == {<<b>> : b \in 0..255} \cup {<<97, b>> : b \in 0..255} \cup SeqsUpTo(Kinds, IF Deep THEN 3 ELSE 2) \cup SeqsUpTo({13, 34, 92, 97, 114}, IF Deep THEN 5 ELSE 4)
Type(t, s, x, p) == [type |-> t, subtype |-> s, suffix |-> x, params |-> p]
T == Octets("a")
Words == {<<>>, Octets("x"), Octets("Yz")}
Params == {<<w, v>> : w \in Words, v \in {<<>>, Octets("v"), <<118, 32, 119>>}}
Law(v) == ReadValue(WriteValue(v)) = v
Init == st = InitTools /\ part \in Parts
Ask(m) == Do([op |-> "media", mt |-> m])
Next ==
  \/ \E v \in Values : Mine(Len(v) + (IF v = <<>> THEN 0 ELSE v[Len(v)])) /\ Assert(Law(v), "Law") /\ Ask(Type(T, T, <<>>, <<<<T, v>>>>))
  \/ part = 1 /\ \E t \in Words, s \in Words, x \in Words, p \in {<<>>, <<<<T, T>>>>} : Ask(Type(t, s, x, p))
  \/ \E ps \in SeqsUpTo(Params, IF Deep THEN 3 ELSE 2) : Mine(Len(ps)) /\ Ask(Type(T, T, <<>>, ps))
Spec == Init /\ [][Next]_vars
=============================================================================

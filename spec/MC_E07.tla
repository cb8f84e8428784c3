------------------------------- MODULE MC_E07 -------------------------------
(* Adding members to objects in every order, with children that are not       *)
(* members or have no string key among them.                                  *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 8}, "thorough": {"NSlots": 2, "MaxNodes": 10}, "properties": ["NewestLast", "Stay"]}
EXTENDS MCBase

M(k, x) == Mem(k, S(x))
Kids0 == { M("a", "1"), M("a", "2"), M("b", "1"), MkC("member", <<N1, S("a")>>), MkC("member", <<Empty("string"), S("a")>>), S("a"), Empty("member") }
        \cup (IF Deep THEN { M("", "1"), MkC("select", <<>>), MkV("ref", "a"), MkC("member", <<Nil, Nil>>) } ELSE {})
Init == slots = [InitSlots EXCEPT ![1] = Obj(<<>>)] /\ reg = <<>>
D == [d |-> 1, p |-> <<>>]
C == slots[1].c
Next ==
  \/ \E e \in Kids0 : e \notin {MkC("member", <<Nil, Nil>>)} /\ Do([op |-> "push", el |-> e] @@ D)
  \/ \E k \in {"a", "b", ""} : Do([op |-> "addm", k |-> k, el |-> S("n")] @@ D) \/ Do([op |-> "find", k |-> k] @@ D)
  \/ \E i \in 1..Len(C) : Do([op |-> "era", i |-> i] @@ D)
  \/ Len(C) < 2 /\ Do([op |-> "ins", i |-> 1, el |-> M("a", "3")] @@ D)     \* insertion does not look at names
Spec == Init /\ [][Next]_vars

Grown == Len(slots'[1].c) >= Len(slots[1].c) /\ slots'[1].c # slots[1].c
\* names that are unique stay so, except by the one operation that does not look at them
NewestLast == [][(UniqueMembers(slots[1].c) /\ ~UniqueMembers(slots'[1].c)) => Len(slots[1].c) < 2]_vars
\* children without a string key are not removed by adding
NoKey(c) == SelectSeq(c, LAMBDA e : ~HasStrKey(e))
Stay == [][Grown => IsPrefix(NoKey(slots[1].c), NoKey(slots'[1].c))]_vars
=============================================================================

------------------------------- MODULE MC_E10 -------------------------------
(* Every history of registering, finding, removing and clearing definitions.  *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 4}, "thorough": {"NSlots": 2, "MaxNodes": 4}, "invariants": ["OnePerName"], "properties": ["OnlyThatName"]}
EXTENDS MCBase

Defs == { Id(Empty("object"), "A"), Id(MkV("string", "s"), "A"), Id(Named(Empty("object"), "A"), "B"), Id(N1, "object"), Id(N1, "number"),
          Id(N1, ""), N1, WithM(N1, "id", N1), [N1 EXCEPT !.m = <<[k |-> "id", el |-> Empty("string")]>>], Id(N1, "generic"), Id(N1, "member") }
        \cup (IF Deep THEN { Id(N1, "C"), Id(S("x"), "C"), WithA(N1, "id", S("A")), Id(N1, "strin") } ELSE {})
Lookups == {"A", "B", "C", "", "object", "null", "generic", "string"}
Init == slots = InitSlots /\ reg = BaseReg
Next ==
  \/ IsNil(slots[1]) /\ \E e \in Defs : Do([op |-> "lit", d |-> 1, el |-> e])
  \/ ~IsNil(slots[1]) /\ Do([op |-> "radd", s |-> 1])
  \/ IsNil(slots[1]) /\ (\/ \E k \in Lookups : Do([op |-> "rfind", k |-> k])
                         \/ \E k \in {"A", "B", "", "Z"} : Do([op |-> "rremove", k |-> k])
                         \/ Do([op |-> "rclear"]))
Spec == Init /\ [][Next]_vars

OnePerName == /\ UniqueKeys(reg)
              /\ \A i \in 1..Len(reg) : reg[i].k \in Reserved \/ InfoGet(reg[i].el.m, "id").v = reg[i].k
OnlyThatName == [][Len(reg') > 0 => Cardinality(RegSet(reg) \ RegSet(reg')) + Cardinality(RegSet(reg') \ RegSet(reg)) <= 1]_vars
=============================================================================

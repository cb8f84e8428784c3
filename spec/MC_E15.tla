------------------------------- MODULE MC_E15 -------------------------------
(* Dispatch and casts for every kind, name and kind of content.               *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 20}, "thorough": {"NSlots": 1, "MaxNodes": 20}}
EXTENDS MCBase

Some1 == {N1, S("x"), Mem("a", N1), MkC("option", <<>>), Empty("array"), MkC("enum", <<N1>>)}
Content(t) == {Empty(t), MkSet(t)}
              \cup (IF t \in Listlike THEN {MkC(t, <<x>>) : x \in IF t = "select" THEN {MkC("option", <<>>), MkC("option", <<N1>>)} ELSE Some1} ELSE {})
              \cup (IF t \in Boxed THEN {MkC(t, <<x>>) : x \in Some1 \cup {MkC(t, <<N1>>)}} ELSE {})
              \cup (IF t = "member" THEN {MkC(t, <<S("k"), x>>) : x \in Some1} ELSE {})
Ns == (IF Deep THEN Reserved ELSE {"object", "string", "generic", "member"}) \cup {"", "A", "Object"}
U == UNION {UNION {{e} \cup {Named(e, n) : n \in Ns} \cup {WithM(e, "id", S("A")), TA(e, <<"fixed">>)} : e \in Content(t)} : t \in Kinds}
Places(e) == {<<>>} \cup {<<<<"c", i>>>> : i \in {j \in 1..Len(e.c) : ~IsNil(e.c[j])}} \cup {<<<<"m", i>>>> : i \in 1..Len(e.m)}

Init == reg = <<>> /\ slots \in {<<e>> : e \in U}
Next == \E p \in Places(slots[1]) : Do([op |-> "visit", s |-> 1, q |-> p])
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_E11 -------------------------------
(* The root ancestor of every name in every registry over a few names.        *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 4}, "thorough": {"NSlots": 1, "MaxNodes": 4}, "invariants": ["Root"]}
EXTENDS MCBase

Names == IF Deep THEN {"A", "B", "C", "D", "E"} ELSE {"A", "B", "C", "D"}
Parents == Names \cup {"object", "Z", "generic"}
Def(n, p) == Named(Id(Empty(IF n = "B" THEN "string" ELSE "object"), n), p)
RECURSIVE Build(_, _)
Build(f, ns) == IF ns = {} THEN BaseReg
                ELSE LET n == CHOOSE x \in ns : TRUE
                     IN IF f[n] = "-" THEN Build(f, ns \ {n}) ELSE Append(Build(f, ns \ {n}), [k |-> n, el |-> Def(n, f[n])])
\* long chains, the last of which leads back to any of them, to a base type or to nothing
Ls == <<"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "L9", "L10", "L11", "L12">>
Lassos == {BaseReg \o [i \in 1..n |-> [k |-> Ls[i], el |-> Def(Ls[i], IF i < n THEN Ls[i + 1] ELSE x)]] : n \in 5..12, x \in Range(Ls) \cup {"object", "Z"}}
Init == /\ slots = InitSlots
        /\ ((\E f \in [Names -> Parents \cup {"-"}] : reg = Build(f, Names)) \/ reg \in Lassos)
Next == \E n \in {"A", "B", "object", "Q", "L1", "L4"} : Do([op |-> "rroot", k |-> n])
Spec == Init /\ [][Next]_vars

Root == \A n \in Names : LET e == RootAncestor(reg, n)
                         IN IF ~InfoHas(reg, n) THEN IsNil(e)
                            ELSE \/ e.n \in Reserved
                                 \/ ~InfoHas(reg, e.n)
                                 \/ LET r == Inherit(reg, n, <<>>) IN r.cycle
=============================================================================

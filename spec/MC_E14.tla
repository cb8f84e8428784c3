------------------------------- MODULE MC_E14 -------------------------------
(* Expandability of every small element, and what expansion makes of elements *)
(* that are not expandable.                                                   *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 100}, "thorough": {"NSlots": 2, "MaxNodes": 100}, "invariants": ["Exactly", "Nothing"]}
EXTENDS MCBase

NamesOf == {"object", "A", "", "generic", "string"}
Leaf == {N1, S("x"), Empty("string"), MkV("ref", "A"), Empty("ref"), MkSet("null"), Empty("null"), MkV("boolean", "true"), Nil}
        \cup {Named(N1, n) : n \in {"A", "", "generic"}} \cup {Named(Empty("object"), n) : n \in NamesOf} \cup {Empty("enum"), Empty("array")}
Real == Leaf \ {Nil}
Keys2 == {S("k"), Named(S("k"), "A"), MkC("extend", <<Named(S("k"), "A")>>)}
Mems(A) == {MkC("member", <<k, v>>) : k \in Keys2, v \in A}
Lev1 == {Arr(<<x>>) : x \in Real} \cup {Arr(<<x, y>>) : x \in {N1, Named(N1, "A"), Empty("object")}, y \in Real} \cup {Obj(<<m>>) : m \in Mems(Leaf)}
        \cup {MkC("enum", <<x>>) : x \in Leaf} \cup {WithA(Empty("enum"), "enumerations", Arr(<<x>>)) : x \in Real}
        \cup {WithA(MkC("enum", <<x>>), "enumerations", Arr(<<y>>)) : x \in {Nil, N1}, y \in {N1, Named(N1, "A")}}
        \cup {MkC("holder", <<x>>) : x \in Leaf} \cup {MkC("extend", <<x>>) : x \in Real} \cup {Obj(<<x>>) : x \in Real}
        \cup {MkC("select", <<MkC("option", <<m>>)>>) : m \in Mems({N1, Named(N1, "A")})}
        \cup {MkC("select", <<MkC("option", <<>>), MkC("option", <<N1, x>>)>>) : x \in Real}
        \cup Mems(Leaf) \cup {WithM(N1, "a", Named(N1, "A")), WithA(N1, "a", MkV("ref", "A"))}
Lev2 == {Obj(<<MkC("member", <<S("k"), x>>)>>) : x \in Lev1} \cup {Arr(<<N1, x>>) : x \in Lev1} \cup {MkC("enum", <<x>>) : x \in Lev1}
        \cup {WithA(Empty("enum"), "enumerations", Arr(<<N1, x>>)) : x \in Lev1} \cup {MkC("holder", <<x>>) : x \in Lev1} \cup {Named(x, "A") : x \in Lev1}
        \cup {MkC("extend", <<x, N1>>) : x \in Lev1}
Lev3 == IF Deep THEN {Arr(<<x>>) : x \in Lev2} \cup {MkC("member", <<x, N1>>) : x \in Lev2} \cup {WithM(x, "k", S("a")) : x \in Lev2} ELSE {}
U == Real \cup Lev1 \cup Lev2 \cup Lev3

\* what expansion is given by the parser
RECURSIVE Input(_)
Input(e) == /\ (e.t = "member" => e.s /\ e.n = "member") /\ (e.t \in {"select", "option"} => e.n = e.t)
            /\ \A i \in 1..Len(e.c) : IsNil(e.c[i]) \/ Input(e.c[i])
            /\ (e.t = "enum" /\ InfoHas(e.a, "enumerations")) => Input(Attr(e, "enumerations"))

Init == reg = <<>> /\ slots \in {[InitSlots EXCEPT ![1] = e] : e \in U}
Next == /\ IsNil(slots[2])
        /\ \/ Do([op |-> "expandable", s |-> 1, q |-> <<>>])
           \/ Input(slots[1]) /\ Do([op |-> "expand", d |-> 2, s |-> 1, q |-> <<>>, by |-> FALSE])
Spec == Init /\ [][Next]_vars

\* elements the question looks into: content, and the enumerations of enums; not those inside a holder
RECURSIVE Looked(_)
Looked(e) == {e} \cup (IF e.t \in {"ref", "holder"} \/ e.n \notin Reserved THEN {}
                       ELSE UNION {IF IsNil(e.c[i]) THEN {} ELSE Looked(e.c[i]) : i \in 1..Len(e.c)}
                            \cup (IF e.t = "enum" /\ InfoHas(e.a, "enumerations") THEN Looked(Attr(e, "enumerations")) ELSE {}))
Exactly == Expandable(slots[1]) <=> \E x \in Looked(slots[1]) : x.t = "ref" \/ x.n \notin Reserved
Nothing == (IsNil(slots[2]) /\ Input(slots[1]) /\ ~Expandable(slots[1])) =>
             LET r == Expand(slots[1], reg, <<>>) IN r.err = "" /\ (r.none \/ Eq(r.el, slots[1]))
=============================================================================

------------------------------- MODULE MC_E21 -------------------------------
(* The dump of every small tree.                                              *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 40}, "thorough": {"NSlots": 1, "MaxNodes": 40}, "invariants": ["Whole"]}
EXTENDS MCBase

P0 == {N1, S("x"), S(""), Empty("string"), Empty("number"), Empty("boolean"), MkV("boolean", "true"), MkV("boolean", "false"), MkV("ref", "A"), Empty("ref"), MkSet("null"), Empty("null"), Named(N1, "A"), Named(Empty("object"), "")}
L1 == {MkC(t, c) : t \in {"array", "object", "extend", "option"}, c \in {<<>>} \cup {<<x>> : x \in P0} \cup {<<x, y>> : x \in {N1, Empty("string")}, y \in {S("x"), Empty("array")}}}
      \cup {MkC("member", <<k, v>>) : k \in {S("k"), Empty("string"), MkC("extend", <<S("a")>>)}, v \in P0} \cup {MkC("enum", <<x>>) : x \in P0 \cup {Nil}} \cup {MkC("holder", <<x>>) : x \in P0}
      \cup {Named(MkC("holder", <<N1>>), "h")}
Dec(e) == {e, WithM(e, "id", S("A")), WithA(e, "default", N1), WithA(e, "sourceMap", Arr(<<N1>>)), WithM(e, "sourceMap", N1), WithA(WithA(WithA(e, "a", S("1")), "sourceMap", N1), "b", Arr(<<Named(S("2"), "A")>>)), WithM(WithM(Named(e, "A"), "id", WithA(S("q"), "sourceMap", N1)), "description", S("d"))}
Base1 == {N1, Empty("string"), MkSet("null"), Obj(<<Mem("a", N1)>>), Arr(<<>>), MkC("enum", <<N1>>), MkC("select", <<MkC("option", <<Mem("a", N1)>>)>>), MkC("option", <<N1>>), MkC("extend", <<N1>>), Mem("a", S("b")), MkC("holder", <<N1>>), MkV("ref", "A"), Empty("boolean")}
Decd == UNION {Dec(e) : e \in Base1}
L2 == {Obj(<<Mem("k", x)>>) : x \in L1} \cup {Arr(<<x, N1>>) : x \in L1} \cup {Obj(<<x>>) : x \in Decd} \cup {Mem("k", x) : x \in Decd} \cup {MkC("enum", <<x>>) : x \in Decd} \cup {MkC("holder", <<x>>) : x \in Decd} \cup {Arr(<<N1, x>>) : x \in Decd} \cup {MkC("extend", <<x>>) : x \in Decd}
      \cup {MkC("select", <<x, MkC("option", <<y>>)>>) : x \in Dec(MkC("option", <<N1>>)), y \in Decd} \cup {MkC("select", <<MkC("option", <<>>), x>>) : x \in Dec(MkC("option", <<>>))} \cup {MkC("select", <<>>), Empty("select")}
      \cup {WithA(N1, "d", x) : x \in Decd} \cup {WithM(N1, "d", x) : x \in Decd}
L3 == IF Deep THEN {Obj(<<Mem("k", x), y>>) : x \in L2, y \in {N1, Mem("z", S("x"))}} ELSE {}
U == {x \in {Empty(t) : t \in Kinds \ {"member", "holder"}} \cup P0 \cup L1 \cup Decd \cup L2 \cup L3 : TRUE}

Init == reg = <<>> /\ slots \in {<<e>> : e \in U}
Next == \/ \E h \in {"call", "visit"} : Do([op |-> "dump", s |-> 1, q |-> <<>>, i |-> 0, b |-> TRUE, how |-> h])
        \/ Do([op |-> "dump", s |-> 1, q |-> <<>>, i |-> 2, b |-> FALSE, how |-> "call"])
Spec == Init /\ [][Next]_vars

\* one heading for each element that is shown
RECURSIVE Shown(_)
Shown(e) == LET sum(f(_), n) == FoldFunction(LAMBDA x, y : x + y, 0, [i \in 1..n |-> f(i)])
            IN IF IsNil(e) THEN 0
               ELSE 1 + sum(LAMBDA i : Shown(e.m[i].el), Len(e.m)) + sum(LAMBDA i : IF e.a[i].k = "sourceMap" THEN 0 ELSE Shown(e.a[i].el), Len(e.a))
                      + sum(LAMBDA i : Shown(e.c[i]), Len(e.c))
Heads(l) == Cardinality({i \in 1..Len(l) : Len(l[i]) > 0 /\ \E d \in 0..12 : LET p == Spaces(d) \o "+ " IN Len(p) <= Len(l[i]) /\ SubSeq(l[i], 1, Len(p)) = p})
Whole == Heads(Dump(slots[1], 0)) = Shown(slots[1])
=============================================================================

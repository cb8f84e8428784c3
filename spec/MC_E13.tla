------------------------------- MODULE MC_E13 -------------------------------
(* Expansion over every registry of three definitions that mention each other *)
(* as parents, members and mixins, cycles of every length included.           *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 1000}, "thorough": {"NSlots": 2, "MaxNodes": 1000}, "invariants": ["Sound"]}
EXTENDS MCBase

Ns == {"A", "B", "C"}
T(n) == Named(Empty("object"), n)
Mix(n) == MkV("ref", n)
Def(n, p, b) == [k |-> n, el |-> Id(Named(b, p), n)]
Plain == Empty("object")
Bodies == {Plain} \cup {Obj(<<Mem("m", T(x))>>) : x \in Ns} \cup {Obj(<<Mix(x)>>) : x \in Ns}
Nested == {Obj(<<Mem("l", Arr(<<T(x)>>))>>) : x \in Ns} \cup {Obj(<<Mix(x), Mem("n", T(y))>>) : x \in Ns, y \in {"A", "B"}}
          \cup {Obj(<<MkC("select", <<MkC("option", <<Mem("o", T(x))>>), MkC("option", <<Mix("B")>>)>>)>>) : x \in Ns}
\* [parent, body]
Simple == {<<"object", b>> : b \in Bodies} \cup {<<p, Plain>> : p \in Ns}
Full   == {<<p, b>> : p \in Ns \cup {"object"}, b \in Bodies}
Defs(n, Z) == {Def(n, x[1], x[2]) : x \in Z}
Three == IF Deep THEN [A |-> Full, B |-> Simple \cup {<<"A", Obj(<<Mix("C")>>)>>, <<"C", Obj(<<Mem("m", T("A"))>>)>>}, C |-> Full]
         ELSE [A |-> Simple, B |-> Simple, C |-> Simple]
Regs == {BaseReg \o <<a, b, c>> : a \in Defs("A", Three["A"]), b \in Defs("B", Three["B"]), c \in Defs("C", Three["C"])}
        \cup {BaseReg \o <<a, b>> : a \in Defs("A", {<<p, x>> : p \in {"object", "A", "B"}, x \in Nested \cup Bodies}),
                                    b \in Defs("B", {<<p, x>> : p \in {"object", "A"}, x \in Nested \cup {Plain}})}
\* the last mixes A in twice, once with attributes of its own
\* chains of up to L definitions linked in one way, the last of which leads back to any of them, to nothing, or to a definition that is not there
Ls == <<"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "L9", "L10">>
Link(how, n, x) == IF how = "parent" THEN Def(n, x, Plain)
                   ELSE IF how = "both" THEN Def(n, x, Obj(<<Mem("m" \o n, T(x))>>))
                   ELSE Def(n, "object", IF how = "member" THEN Obj(<<Mem("m", T(x))>>) ELSE IF how = "mixin" THEN Obj(<<Mem(n, N1), Mix(x)>>)
                                         ELSE Obj(<<MkC("select", <<MkC("option", <<Mem("o", Arr(<<T(x)>>))>>)>>)>>))
Lasso(how, n, x) == BaseReg \o [i \in 1..n |-> Link(how, Ls[i], IF i < n THEN Ls[i + 1] ELSE x)]
Lassos == {Lasso("both", n, x) : n \in 1..2, x \in {"L1", "L2", "object", "array", "Z"}} \cup
          {Lasso(how, n, x) : how \in {"parent", "member", "mixin", "alternate"}, n \in 1..(IF Deep THEN 10 ELSE 7), x \in Range(Ls) \cup {"object", "array", "Z"}}
LassoExprs == {T("L1"), Mix("L1"), Obj(<<Mem("k", T("L2")), Mem("l", Arr(<<T("L1")>>)), Mix("L3")>>)}
Exprs == {T("A"), Mix("A"), Obj(<<Mem("k", T("B")), Mix("A")>>), Obj(<<WithA(Mix("A"), "k", N1), Mem("k", Arr(<<Mix("A")>>))>>)}

Init == \/ reg \in Regs /\ slots \in {[InitSlots EXCEPT ![1] = e] : e \in Exprs}
        \/ reg \in Lassos /\ slots \in {[InitSlots EXCEPT ![1] = e] : e \in LassoExprs}
Next == IsNil(slots[2]) /\ Do([op |-> "expand", d |-> 2, s |-> 1, q |-> <<>>, by |-> FALSE])
Spec == Init /\ [][Next]_vars

All == Ns \cup Range(Ls)
\* the names an element mixes in anywhere, and those it mentions in any way
RECURSIVE Mixes(_), Mentions(_)
Mixes(e) == (IF e.t = "ref" /\ e.s THEN {e.v} ELSE {}) \cup UNION {Mixes(e.c[i]) : i \in 1..Len(e.c)}
Mentions(e) == (IF e.t = "ref" /\ e.s THEN {e.v} ELSE {}) \cup (IF e.n \in All THEN {e.n} ELSE {}) \cup UNION {Mentions(e.c[i]) : i \in 1..Len(e.c)}
Body(n) == RegFind(reg, n)
RECURSIVE Reach(_)
Reach(Z) == LET R == Z \cup UNION {Mentions(Body(n)) \cap All : n \in Z} IN IF R = Z THEN Z ELSE Reach(R)

Sound ==
  IsNil(slots[2]) =>
  LET r == Expand(slots[1], reg, <<>>)
  IN  /\ r.err # "" => r.err \in Reach(Mentions(slots[1]) \cap All)        \* an error names a type that is involved
                       /\ r.err \in Reach(Mentions(Body(r.err)) \cap All)  \* and mentions itself
                       /\ \E n \in All : r.err \in Mixes(Body(n))          \* and is mixed in somewhere
      \* mixins that cannot lead back to themselves are never an error
      /\ (\A n \in Reach(Mentions(slots[1]) \cap All) : \A x \in Mixes(Body(n)) : x \notin Reach({n}) \/ n \notin Reach({x})) => r.err = ""
      \* a type that mixes itself in directly is
      /\ (slots[1].t = "ref" /\ InfoHas(reg, slots[1].v) /\ Body(slots[1].v).n = "object" /\ slots[1].v \in Mixes(Body(slots[1].v)) /\ Len(Body(slots[1].v).c) = 1
            /\ Body(slots[1].v).c[1].t = "ref") => r.err = slots[1].v
=============================================================================

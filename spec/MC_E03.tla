------------------------------- MODULE MC_E03 -------------------------------
(* Equality over all pairs of a universe of small elements that differ in     *)
(* exactly one respect from each other.                                       *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 100}, "thorough": {"NSlots": 2, "MaxNodes": 100}, "invariants": ["Equivalence"]}
EXTENDS MCBase

I(k, e) == <<[k |-> k, el |-> e]>>
Base == { N1, MkV("number", "2"), MkV("string", "1"), MkV("ref", "1"), MkV("boolean", "true"), MkV("boolean", "false"), MkV("null", ""),
          Empty("null"), Arr(<<>>), Arr(<<N1>>), Arr(<<N1, S("1")>>), Arr(<<S("1"), N1>>), Obj(<<>>), Obj(<<Mem("a", N1)>>),
          Obj(<<Mem("a", N1), Mem("b", N1)>>), Obj(<<Mem("b", N1), Mem("a", N1)>>), MkC("extend", <<N1>>), MkC("option", <<N1>>),
          MkC("enum", <<N1>>), MkC("enum", <<Nil>>), MkC("enum", <<Empty("string")>>), MkC("enum", <<Empty("number")>>),
          Arr(<<N1, N1>>), Arr(<<N1, N1, N1>>), MkC("option", <<N1, N1>>), MkC("option", <<N1, N1, N1>>), MkC("extend", <<N1, N1>>), MkC("extend", <<N1, N1, N1>>),
          Obj(<<Mem("a", N1), Mem("b", N1), Mem("c", N1)>>), MkC("holder", <<N1>>), MkC("holder", <<Nil>>),
          Mem("a", N1), Mem("a", Nil), MkC("member", <<Nil, Nil>>), MkC("member", <<N1, N1>>), Mem("b", N1), Mem("a", Named(N1, "A")),
          Mem("a", WithA(N1, "k", N1)), MkC("select", <<MkC("option", <<N1>>)>>), MkC("select", <<MkC("option", <<>>), MkC("option", <<N1>>)>>) }
Decorated == UNION { { Named(e, "A"), [e EXCEPT !.m = I("a", N1)], [e EXCEPT !.a = I("a", N1)],
                       [e EXCEPT !.m = I("a", N1) \o I("b", S("1"))], [e EXCEPT !.m = I("b", S("1")) \o I("a", N1)],
                       [e EXCEPT !.a = I("a", Arr(<<N1>>))], [e EXCEPT !.a = I("a", Arr(<<S("1")>>))], [e EXCEPT !.m = I("b", N1)] }
                     : e \in IF Deep THEN Base ELSE { N1, Obj(<<Mem("a", N1)>>), Empty("string") } }
U == Base \cup { Empty(t) : t \in Kinds } \cup Decorated

Init == slots \in {<<x, y>> : x \in U, y \in U} /\ reg = <<>>
DS == [d |-> 1, p |-> <<>>, s |-> 2, q |-> <<>>]
Next == \/ Do([op |-> "eq"] @@ DS)
        \/ slots[1].m # slots[2].m /\ slots[1].t = slots[2].t /\ Do([op |-> "ieq"] @@ DS)
        \/ slots[1].t = slots[2].t /\ slots[1].s /\ slots[2].s /\ Do([op |-> "deq"] @@ DS)
Spec == Init /\ [][Next]_vars

Sample3 == { N1, Named(N1, "A"), WithM(N1, "a", N1), Arr(<<N1>>), Arr(<<Named(N1, "Z")>>), Arr(<<WithA(N1, "a", Arr(<<N1>>))>>), Arr(<<WithA(N1, "a", Named(Arr(<<N1>>), "Q"))>>) }
ASSUME \A x \in Sample3, y \in Sample3, z \in Sample3 : Eq(x, y) /\ Eq(y, z) => Eq(x, z)
Strip(e) == [e EXCEPT !.n = ""]
Equivalence ==
  LET x == slots[1] y == slots[2]
  IN /\ Eq(x, x) /\ Eq(x, Clone(x, 15))
     /\ Eq(x, y) = Eq(y, x)
     /\ (Strip(x) = Strip(y)) => Eq(x, y)
     /\ Eq(x, y) => x.t = y.t /\ x.s = y.s /\ Len(x.m) = Len(y.m) /\ Len(x.c) = Len(y.c)
=============================================================================

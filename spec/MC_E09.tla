------------------------------- MODULE MC_E09 -------------------------------
(* Merging all short inheritance chains over small definitions of each kind.  *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 100}, "thorough": {"NSlots": 2, "MaxNodes": 100}, "properties": ["LatestWins"]}
EXTENDS MCBase

Sel(k) == MkC("select", <<MkC("option", <<Mem(k, S("o"))>>)>>)
Sel3 == MkC("select", <<MkC("option", <<MkC("member", <<MkC("extend", <<S("a")>>), S("o")>>)>>)>>)
Sel2 == MkC("select", <<MkC("option", <<S("x")>>), MkC("option", <<Mem("b", S("o")), Mem("a", S("p"))>>)>>)
\* a key of a named type
Typed(k) == MkC("member", <<MkC("extend", <<S(k)>>), N1>>)
Items == { Mem("a", N1), Mem("a", S("2")), Mem("b", N1), MkV("ref", "A"), Sel("a"), S("x"), Typed("a") }
         \cup { MkC("select", <<MkC("option", <<MkC("member", <<S("a"), Nil>>)>>)>>), WithM(MkV("ref", "A"), "description", S("d")) }
         \cup (IF Deep THEN { MkV("ref", "B"), Sel2, Sel3, Mem("", N1), MkC("member", <<S("a"), Nil>>), WithA(MkV("ref", "A"), "k", N1) } ELSE {})
UniqueObj(c) == \A i \in 1..Len(c), j \in 1..Len(c) : i < j => ~(c[i].t = "member" /\ c[j].t = "member" /\ KeyVal(c[i]) = KeyVal(c[j]))
Objects == {Empty("object")} \cup { Obj(c) : c \in { x \in SeqsUpTo(Items, 2) : UniqueObj(x) } }
           \cup { WithA(WithM(WithM(Obj(<<Mem("a", N1)>>), "id", S("A")), "description", S("d")), "k", N1),
                  WithM(WithM(WithM(Obj(<<Mem("b", N1)>>), "ids", S("A")), "i", S("B")), "prefixes", S("d")), WithA(Obj(<<Mem("a", N1)>>), "enumeration", Arr(<<S("1")>>)),
               WithA(WithM(WithM(WithM(Empty("object"), "prefix", S("A")), "description", S("e")), "namespace", S("x")), "k", S("l")) }
En(xs) == WithA(Empty("enum"), "enumerations", Arr(xs))
D1 == WithM(S("1"), "description", S("d"))
Enums == { En(<<D1, S("1"), S("2")>>), En(<<S("2"), D1, WithA(S("1"), "k", N1)>>), En(<<WithA(S("1"), "k", N1), S("1")>>), Empty("enum"), MkC("enum", <<S("v")>>), MkC("enum", <<Nil>>), WithA(En(<<S("1")>>), "default", S("1")) }
         \cup { En(xs) : xs \in SeqsUpTo({S("1"), S("2"), Empty("string")}, IF Deep THEN 3 ELSE 2) } \cup { WithA(WithA(Empty("enum"), "k", N1), "enumerations", Arr(<<WithM(S("1"), "description", S("d"))>>)) }
Prims(t, A) == { Empty(t) } \cup { MkV(t, x) : x \in A } \cup { WithA(MkV(t, x), "typeAttributes", Arr(<<S("fixed")>>)) : x \in A } \cup { WithA(Empty(t), "default", MkV(t, x)) : x \in A }
Arrays == { Empty("array") } \cup { Arr(c) : c \in SeqsUpTo({N1, S("x")}, 2) } \cup { WithM(Arr(<<N1>>), "id", S("i")) }
Others == { Empty("null"), MkSet("null"), MkC("option", <<N1>>), Sel("a"), MkC("extend", <<N1>>), Mem("a", N1), MkC("holder", <<N1>>), MkC("enum", <<N1>>), Arr(<<N1>>), S("x"), N1, Obj(<<>>), Nil }

Pairs(A) == { <<x, y>> : x \in A, y \in A }
Triples(A) == { <<x, y, z>> : x \in A, y \in A, z \in A }
SmallObjects == { Empty("object"), Obj(<<Mem("a", N1)>>), Obj(<<Mem("b", N1), Mem("a", S("2"))>>), Obj(<<Sel("a")>>), Obj(<<MkV("ref", "A"), Mem("a", S("3"))>>), Obj(<<>>) }
Chains == { <<>> } \cup { <<x>> : x \in Others } \cup Pairs(Objects) \cup Triples(SmallObjects) \cup Pairs(Enums)
          \cup Pairs(Prims("number", {"1", "2"})) \cup Pairs(Prims("string", {"", "b"})) \cup Pairs(Prims("boolean", {"true", "false"})) \cup Pairs(Prims("ref", {"A", "B"}))
          \cup Pairs(Arrays) \cup Pairs(Others) \cup (IF Deep THEN Triples(Enums) \cup Triples(Prims("number", {"1"})) \cup Triples(Arrays) ELSE {})

Init == slots \in {[InitSlots EXCEPT ![1] = MkC("extend", c)] : c \in Chains} /\ reg = <<>>
Next == IsNil(slots[2]) /\ Do([op |-> "merge", d |-> 2, s |-> 1, q |-> <<>>])
Spec == Init /\ [][Next]_vars

Names(e) == MemberNames(e.c)
LatestWins ==
  [][LET c == slots[1].c
         r == slots'[2]
         last == c[Len(c)]
     IN c # <<>> /\ ~IsNil(r) /\ ~IsNil(last) =>
          /\ r.t = last.t
          /\ last.s /\ r.t \in Primitive => r.s /\ r.v = last.v
          /\ \A i \in 1..Len(last.a) : last.a[i].k # "enumerations" => InfoGet(r.a, last.a[i].k) = last.a[i].el
          /\ r.t = "object" => \A i \in 1..Len(last.c) : last.c[i].t = "member" =>
                /\ \E j \in 1..Len(r.c) : r.c[j] = last.c[i]
                /\ \A j \in 1..Len(c) : IsNil(c[j]) \/ Names(c[j]) \subseteq Names(r) \cup {"a", "b"}
          /\ r.t = "enum" => LET l == InfoGet(r.a, "enumerations").c
                             IN \A i \in 1..Len(l), j \in 1..Len(l) : i < j /\ Len(c) > 1 => ~Eq(l[i], l[j]) \/ \E k \in 1..Len(c) : Len(InfoGet(c[k].a, "enumerations").c) > 1]_vars
=============================================================================

------------------------------- MODULE MC_E12 -------------------------------
(* Expanding every small expression over every registry of two or three       *)
(* acyclic and cyclic definitions.                                            *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 200}, "thorough": {"NSlots": 2, "MaxNodes": 400}, "properties": ["Resolved"]}
EXTENDS MCBase

T(n) == Named(Empty("object"), n)                    \* something of type n
Bodies == { Empty("object"), Obj(<<Mem("m", S("1"))>>), Obj(<<Mem("m", T("A"))>>), Obj(<<Mem("m", T("B")), Mem("n", N1)>>),
            Obj(<<MkV("ref", "B")>>), Obj(<<MkV("ref", "A"), Mem("z", N1)>>), Obj(<<Mem("l", Arr(<<T("A")>>))>>) }
          \cup (IF Deep THEN { Obj(<<MkC("select", <<MkC("option", <<Mem("o", T("B"))>>)>>)>>), Obj(<<MkV("ref", "C"), Mem("c", T("C"))>>),
                               WithM(WithA(Obj(<<Mem("m", Named(S("x"), "B"))>>), "k", N1), "description", S("d")) } ELSE {})
Def(n, p, b) == Id(Named(b, p), n)
Regs == { BaseReg \o <<[k |-> "A", el |-> Def("A", pa, ba)]>> \o <<[k |-> "B", el |-> Def("B", pb, bb)]>>
          : pa \in {"object", "B"}, pb \in {"object", "A", "Z"}, ba \in Bodies, bb \in Bodies }
Exprs == { T("A"), Id(Named(Obj(<<Mem("own", N1)>>), "B"), "X"), Obj(<<Mem("m", T("B"))>>), MkV("ref", "A"), Obj(<<MkV("ref", "B"), Mem("k", N1)>>) }
        \cup (IF Deep THEN { Arr(<<T("A"), N1, T("B")>>), WithA(Empty("enum"), "enumerations", Arr(<<Named(S("1"), "A"), S("2")>>)), Named(MkC("enum", <<S("1")>>), "A"),
          MkC("select", <<MkC("option", <<Mem("s", T("A"))>>)>>), MkC("member", <<Named(S("key"), "B"), T("A")>>), Empty("ref"), MkV("ref", "Z"), T("Z"), N1 } ELSE {})
More == { Arr(<<T("A"), N1, T("B")>>), WithA(WithA(Empty("enum"), "default", N1), "enumerations", Arr(<<Named(S("1"), "A"), S("2")>>)), Named(MkC("enum", <<S("1")>>), "A"),
          WithA(MkC("select", <<MkC("option", <<Mem("s", T("A"))>>)>>), "k", N1), MkC("member", <<Named(S("key"), "B"), T("A")>>), Empty("ref"), MkV("ref", "Z"), MkV("ref", ""), T("Z"), N1, Obj(<<Mem("a", N1)>>),
          Named(N1, "A"), Named(Empty("string"), "B"), Named(MkV("boolean", "true"), "A"), Named(Arr(<<T("B")>>), "A"), MkC("extend", <<T("A"), T("B")>>), MkC("holder", <<T("A")>>), Named(MkC("enum", <<Nil>>), "enum"),
          MkC("enum", <<T("A")>>), Mem("a", Nil), MkC("member", <<Nil, T("A")>>), Empty("select"), MkC("select", <<>>), Named(Empty("enum"), "B"), WithA(Named(Empty("enum"), "A"), "enumerations", Arr(<<MkV("ref", "B"), T("B"), S("v")>>)), WithA(WithA(Named(MkC("enum", <<T("B")>>), "B"), "k", N1), "enumerations", Arr(<<T("A"), MkV("ref", "A")>>)), WithM(WithM(T("A"), "id", Empty("string")), "x", N1),
          WithA(WithM(Named(Obj(<<>>), "A"), "description", S("d")), "k", S("v")), Named(MkSet("null"), "A"), Named(MkV("ref", "A"), "B") }
Few == { BaseReg \o <<[k |-> "A", el |-> Def("A", pa, ba)]>> \o <<[k |-> "B", el |-> Def("B", "object", Obj(<<Mem("b", S("x"))>>))]>>
          : pa \in {"object", "B", "A"}, ba \in Bodies }

Init == \/ reg \in Regs /\ slots \in {[InitSlots EXCEPT ![1] = e] : e \in Exprs}
        \/ reg \in Few /\ slots \in {[InitSlots EXCEPT ![1] = e] : e \in More}
Next == IsNil(slots[2]) /\ \E b \in {TRUE, FALSE} : Do([op |-> "expand", d |-> 2, s |-> 1, q |-> <<>>, by |-> b])
Spec == Init /\ [][Next]_vars

\* an expanded tree depends on no registered type any more: what still bears a name is a marker or unknown
RECURSIVE Closed(_)
Closed(e) == /\ (e.n \in Reserved \cup {""} \/ ~InfoHas(reg, e.n) \/ InfoHas(e.m, "ref") \/ e.t \in {"ref", "null", "holder"})
             /\ \A i \in 1..Len(e.c) : IsNil(e.c[i]) \/ e.t = "holder" \/ Closed(e.c[i])
Resolved ==
  [][LET x == slots[1]
         r == slots'[2]
     IN /\ slots'[1] = x /\ reg' = reg
        /\ ~IsNil(r) => Closed(r)
        /\ (~IsNil(r) /\ x.n \notin Reserved /\ x.t \notin {"ref", "null", "holder"} /\ r.t = "extend")
              => /\ r.c # <<>> /\ r.c[Len(r.c)].t = x.t /\ r.c[Len(r.c)].n = DefName(x.t)
                 /\ \A i \in 1..Len(r.c) - 1 : InfoHas(r.c[i].m, "ref") /\ ~InfoHas(r.c[i].m, "id")
                 /\ (InfoHas(x.m, "id") /\ InfoGet(x.m, "id").s => InfoGet(r.m, "id") = InfoGet(x.m, "id"))]_vars
=============================================================================

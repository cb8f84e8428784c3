------------------------------- MODULE MC_E18 -------------------------------
(* The value of every element that has or lacks content, samples, defaults,   *)
(* enumerations and nullability.                                              *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 40}, "thorough": {"NSlots": 1, "MaxNodes": 60}, "invariants": ["Order"]}
EXTENDS MCBase

K == {"string", "number", "boolean", "array", "object", "ref", "null"}
X(t) == CASE t = "string" -> S("x") [] t = "number" -> N1 [] t = "boolean" -> MkV("boolean", "true") [] t = "array" -> Arr(<<N1>>)
          [] t = "object" -> Obj(<<Mem("a", N1)>>) [] t = "ref" -> MkV("ref", "A") [] t = "null" -> MkSet("null") [] t = "enum" -> MkC("enum", <<S("x")>>)
          [] OTHER -> MkSet(t)
Y(t) == CASE t = "string" -> S("") [] t = "number" -> MkV("number", "2") [] t = "boolean" -> MkV("boolean", "false") [] OTHER -> MkSet(t)
W(e, k, x) == IF IsNil(x) THEN e ELSE WithA(e, k, x)
Ss(t) == {Nil, Empty("array"), Arr(<<>>), Arr(<<Y(t)>>), Arr(<<Empty(t)>>), Arr(<<S("other"), X(t)>>), Arr(<<N1>>), Arr(<<X(t), Y(t)>>), S("wrong")}
Ds(t) == {Nil, Y(t), X(t), Empty(t), S("d"), N1}
Ns == {Nil, Arr(<<S("nullable")>>), Arr(<<S("fixed")>>)}
Simple == UNION {{W(W(W(e, "samples", s), "default", d), "typeAttributes", n) : e \in {Empty(t), X(t)}, s \in Ss(t), d \in Ds(t), n \in Ns} : t \in K}

EnC == {Empty("enum"), MkC("enum", <<Nil>>), MkC("enum", <<S("c")>>), MkC("enum", <<Empty("string")>>)}
En1 == {MkC("enum", <<S("1")>>), WithA(Empty("enum"), "default", MkC("enum", <<S("2")>>)), Empty("enum"), WithA(MkC("enum", <<S("3")>>), "samples", Arr(<<MkC("enum", <<S("4")>>)>>)),
        WithA(Empty("enum"), "enumerations", Arr(<<Empty("string"), S("e")>>))}
EnL == {Nil, Empty("array"), Arr(<<>>), Arr(<<S("p"), S("q")>>), Arr(<<Empty("string"), S("q")>>), Arr(<<Empty("string")>>), S("wrong")} \cup {Arr(<<x, S("q")>>) : x \in En1}
        \cup {Arr(<<Empty("string"), x>>) : x \in En1} \cup {Arr(<<TA(Empty("null"), <<"fixed">>), MkSet("null")>>)}
EnS == {Nil, Arr(<<S("no")>>)} \cup {Arr(<<x>>) : x \in En1}
EnD == {Nil, S("no")} \cup En1
EnumsOf(C) == {W(W(W(e, "samples", s), "default", d), "enumerations", l) : e \in C, s \in EnS, d \in EnD, l \in EnL}
Enums == EnumsOf(IF Deep THEN EnC ELSE {Empty("enum"), MkC("enum", <<S("c")>>)}) \cup {W(e, "enumerations", l) : e \in EnC, l \in EnL}
\* where being fixed is handed on: to what defines a value, and to every object and null
Fixes == {W(e, "variable", x) : e \in {Mem("k", N1), Mem("k", Empty("number")), MkC("member", <<S("k"), Empty("object")>>), Empty("member")}, x \in {Nil, MkV("boolean", "true"), MkV("boolean", "false"), S("true")}}
         \cup {W(W(Empty(t), "samples", s), "default", d) : t \in {"member", "enum"}, s \in {Nil, Arr(<<X("enum")>>)}, d \in {Nil, X("enum"), N1}}
         \cup {W(Mem("k", Empty("number")), "default", N1), W(MkC("enum", <<Empty("string")>>), "default", X("enum")), Mem("k", MkC("enum", <<N1>>)), Mem("k", MkC("extend", <<Empty("string"), S("x")>>)),
               MkC("extend", <<Empty("string")>>), MkC("extend", <<W(Empty("string"), "samples", Arr(<<S("x")>>)), Empty("string")>>), MkC("extend", <<Mem("k", N1)>>), MkC("extend", <<Obj(<<>>)>>)}
RECURSIVE Hands(_)
Hands(e) == CASE e.t = "member" -> IF e.s THEN ~IsNil(e.c[2]) /\ Hands(e.c[2]) ELSE TRUE
              [] e.t = "enum" -> IF e.s THEN ~IsNil(e.c[1]) /\ Hands(e.c[1]) ELSE TRUE
              [] e.t = "extend" -> e.s /\ e.c # <<>> /\ ~Merge(e.c).err
              [] OTHER -> TRUE
U == Fixes \cup {Empty(t) : t \in Kinds} \cup {MkSet(t) : t \in Kinds} \cup Simple \cup Enums

Init == reg = <<>> /\ slots \in {<<e>> : e \in U}
Next == \/ Do([op |-> "value", s |-> 1, q |-> <<>>])
        \/ (Deep \/ slots[1].t # "enum") /\ Do([op |-> "uvalue", s |-> 1, q |-> <<>>])
        \/ Hands(slots[1]) = TRUE /\ Do([op |-> "inherits", s |-> 1, q |-> <<>>])
Spec == Init /\ [][Next]_vars

Order == LET e == slots[1] v == Value(e)
         IN  e.t # "enum" =>
             /\ e.s => v = e
             /\ (~e.s /\ ~IsNil(Sample(e))) => v = Sample(e)
             /\ (~e.s /\ IsNil(Sample(e)) /\ ~IsNil(Default(e))) => v = Default(e)
             /\ (~IsNil(v)) => v.t = e.t
             /\ IsNil(v) <=> (~e.s /\ IsNil(Sample(e)) /\ IsNil(Default(e)) /\ HasTA(e, "nullable"))
=============================================================================

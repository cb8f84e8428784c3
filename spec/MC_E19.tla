------------------------------- MODULE MC_E19 -------------------------------
(* Every history of adding type attributes, samples and enumerations to one   *)
(* element, and the queries after each step.                                  *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 5}, "thorough": {"NSlots": 1, "MaxNodes": 8}, "properties": ["Grows"]}
EXTENDS MCBase

Att == {"fixed", "nullable"}
Val(t) == CASE t = "boolean" -> MkV("boolean", "true") [] t = "number" -> N1 [] OTHER -> S("x")
Starts == {Empty(t) : t \in Kinds} \cup {MkSet(t) : t \in {"string", "number", "boolean", "null", "array", "ref"}}
          \cup {WithA(Empty("string"), "typeAttributes", x) : x \in {Empty("array"), Arr(<<>>), Arr(<<N1>>), Arr(<<Empty("string")>>), S("fixed"), Arr(<<S("fixe"), S("required"), S("optional"), S("fixedType")>>)}}
          \cup {WithA(MkC("member", <<S("k"), N1>>), "variable", x) : x \in {MkV("boolean", "true"), MkV("boolean", "false"), Empty("boolean"), S("true"), N1}}
Others == {Mem("k", N1), Mem("k", Empty("number")), MkC("member", <<S("k"), Empty("object")>>), WithA(Empty("member"), "default", N1), WithA(Mem("k", N1), "variable", MkV("boolean", "true")),
           MkC("enum", <<N1>>), MkC("enum", <<Empty("string")>>), WithA(Empty("enum"), "default", N1), MkC("extend", <<Empty("string"), S("x")>>), MkC("extend", <<Empty("string")>>),
           MkC("extend", <<Empty("number"), WithA(Empty("number"), "default", N1)>>), MkC("extend", <<Obj(<<>>)>>), Mem("k", MkC("enum", <<Empty("array")>>)), Mem("k", MkC("extend", <<Empty("boolean")>>)),
           WithA(Empty("array"), "samples", Arr(<<Arr(<<>>)>>)), WithA(Empty("array"), "default", Arr(<<>>))}
Ok(x) == IsNil(x) \/ (x.t = "array" /\ x.s)
Base(e) == e \in Starts \cup Others
RECURSIVE Inh(_)
Inh(e) == CASE e.t = "member" -> IF e.s THEN ~IsNil(e.c[2]) /\ Inh(e.c[2]) ELSE TRUE
            [] e.t = "enum" -> IF e.s THEN ~IsNil(e.c[1]) /\ Inh(e.c[1]) ELSE TRUE
            [] e.t = "extend" -> e.s /\ e.c # <<>> /\ ~Merge(e.c).err
            [] OTHER -> TRUE

Init == reg = <<>> /\ slots \in {<<e>> : e \in Starts \cup Others}
D == [d |-> 1, p |-> <<>>]
Q == [s |-> 1, q |-> <<>>]
E == slots[1]
Next ==
  \/ /\ Ok(Attr(E, "typeAttributes"))
     /\ \/ Do([op |-> "uset", how |-> "fixed", x |-> "", el |-> N1] @@ D)
        \/ \E x \in Att : Do([op |-> "uset", how |-> "ta", x |-> x, el |-> N1] @@ D)
  \/ Do([op |-> "uset", how |-> "default", x |-> "", el |-> Val(E.t)] @@ D)
  \/ Ok(Attr(E, "samples")) /\ \E x \in {S("a"), S("b")} : Do([op |-> "uset", how |-> "sample", x |-> "", el |-> x] @@ D)
  \/ Ok(Attr(E, "enumerations")) /\ Do([op |-> "uset", how |-> "enum", x |-> "", el |-> S("e")] @@ D)
  \/ \E w \in {"m", "a"}, k \in {"typeAttributes", "k"}, x \in {"fixed", "z"} :
       LET l == InfoGet(Info(E, w), k) IN (IsNil(l) \/ l.t = "array") /\ Do([op |-> "appinfo", w |-> w, k |-> k, x |-> x] @@ D)
  \/ \E x \in Att \cup {"fixe", ""} : Do([op |-> "attrs", x |-> x] @@ Q)
  \/ Inh(E) = TRUE /\ Do([op |-> "inherits"] @@ Q)
Spec == Init /\ [][Next]_vars

\* adding never removes or reorders what is there, except for replacing the default
Grows == [][LET a == slots[1] b == slots'[1]
            IN  /\ b.t = a.t /\ b.n = a.n /\ b.s = a.s /\ b.c = a.c
                /\ \A w \in {"m", "a"} : \A i \in 1..Len(Info(a, w)) :
                     /\ Info(b, w)[i].k = Info(a, w)[i].k
                     /\ Info(a, w)[i].k # "default" => IsPrefix(Info(a, w)[i].el.c, Info(b, w)[i].el.c)]_vars
=============================================================================

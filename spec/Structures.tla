----------------------------- MODULE Structures -----------------------------
(* The small data structures that the models of the generators range over:    *)
(* kinds x type attributes x set / sample / default, and what holds them.     *)
EXTENDS ValuesBase

Opts == {{}, {"nullable"}, {"fixed"}, {"fixedType"}, {"fixed", "nullable"}, {"fixedType", "nullable"}}
MemOpts == {{}, {"required"}, {"optional"}, {"nullable"}, {"fixed"}, {"fixedType"}, {"required", "fixed"}, {"optional", "nullable"}, {"optional", "required"}}
B(x) == MkV("boolean", x)
Enum(x) == MkC("enum", <<x>>)
Enums(e, xs) == WithA(e, "enumerations", Arr(xs))
Sampled(e, xs) == WithA(e, "samples", Arr(xs))
Defaulted(e, x) == WithA(e, "default", x)
Mixed(xs) == {Sampled(x[1], <<x[2]>>) : x \in xs} \cup {Defaulted(x[1], x[2]) : x \in xs} \cup {Defaulted(Sampled(x[1], <<x[2], x[3]>>), x[3]) : x \in xs}

\* one of each kind: unset, set, and two values to be sample or default
Triples == {<<Empty("string"), S("s"), S("t")>>, <<Empty("number"), N1, MkV("number", "2")>>, <<Empty("boolean"), B("true"), B("false")>>,
            <<Empty("array"), Arr(<<S("i")>>), Arr(<<>>)>>, <<Empty("object"), Obj(<<Mem("k", S("v"))>>), Obj(<<>>)>>,
            <<Enums(Empty("enum"), <<S("e"), N1>>), Enum(S("e")), Enum(N1)>>}
Single == UNION {{x[1], x[2]} : x \in Triples}
        \cup {Str(""), B("false"), MkSet("null"), Empty("null"), Arr(<<S("i"), Empty("number")>>), Arr(<<>>), Obj(<<>>),
              Enums(Enum(S("e")), <<S("e"), S("f")>>), Enums(Empty("enum"), <<Empty("string"), N1, S("x"), S("x")>>),
              Enums(Empty("enum"), <<>>), Enums(Empty("enum"), <<S("only")>>), Enums(Empty("enum"), <<TA(Empty("number"), {"nullable"}), Obj(<<>>)>>),
              Enums(Empty("enum"), <<Enums(Empty("enum"), <<S("n"), S("m")>>), S("m")>>), Enums(Empty("enum"), <<Enums(Empty("enum"), <<Empty("string"), S("m")>>), S("m")>>)}
Filled == Single \cup Mixed(Triples)
Values0 == {TA(x, f) : x \in Filled, f \in Opts}

\* what may stand for a value where there are many around it
Few == {S("x"), Empty("string"), TA(Empty("number"), {"nullable"}), Sampled(Empty("string"), <<S("s")>>), TA(S("f"), {"fixed"}), Obj(<<Mem("k", Empty("string"))>>),
        Arr(<<Empty("number"), S("i")>>), TA(Obj(<<Mem("k", S("v"))>>), {"fixed"}), Enums(Empty("enum"), <<S("e"), S("g")>>), Ref("R", Obj(<<Mem("k", S("r"))>>))}
Named(k, xs, f) == {TA(Mem(k, x), g) : x \in xs, g \in f}
VarKeys == {S("v"), TA(S("v.x"), {"fixed"}), TA(Empty("string"), {"fixed"}), Empty("string"), MkC("extend", <<S("u"), TA(S("w"), {"fixed"})>>)}
Var(k, x) == WithA(MkC("member", <<k, x>>), "variable", B("true"))
Opt(xs) == MkC("option", xs)
Sel(os) == MkC("select", os)
Mixins == {Ref("M", Obj(<<Mem("a", S("mixed")), TA(Mem("b", N1), {"required"})>>)), Ref("M", TA(Obj(<<Mem("c", Empty("string"))>>), {"fixed"})), Ref("M", Empty("object")),
           Ref("M", Sampled(Empty("object"), <<Obj(<<Mem("c", S("s"))>>)>>)), Ref("M", TA(Empty("object"), {"nullable"})),
           MkC("extend", <<Obj(<<Mem("a", S("base")), Mem("c", N1)>>), Obj(<<Mem("a", S("sub"))>>)>>),
           Obj(<<Mem("b", S("inline"))>>), MkC("holder", <<Mem("c", S("held"))>>), MkC("holder", <<Obj(<<Mem("a", S("held"))>>)>>),
           Sel(<<Opt(<<Mem("a", S("o1"))>>), Opt(<<Mem("c", S("o2")), TA(Mem("b", N1), {"required"})>>)>>), Sel(<<>>), Sel(<<Opt(<<>>), Opt(<<Mem("a", N1)>>)>>),
           Sel(<<Opt(<<Ref("M", Obj(<<Mem("a", S("x")), Mem("c", S("y"))>>))>>)>>), S("stray"), Arr(<<S("stray")>>)}
Props2 == Named("a", Few, {{}, {"required"}, {"optional"}}) \cup Named("b", {S("x"), Empty("string")}, {{}, {"required"}, {"optional"}, {"fixed"}, {"nullable"}})
          \cup Mixins \cup {Var(k, S("x")) : k \in VarKeys}
PropsFew == {Mem("a", N1), TA(Mem("a", S("late")), {"required"}), TA(Mem("b", Empty("string")), {"optional"}), TA(Mem("a", Empty("string")), {"optional"})} \cup Mixins
Objects1 == {TA(Obj(<<p>>), f) : p \in UNION {Named("a", Values0, {{}}), Named("a", Filled, MemOpts), Named("", {S("x")}, {{}, {"required"}}), Mixins,
                                              {Var(k, x) : k \in VarKeys, x \in Few}, {MkC("member", <<k, S("x")>>) : k \in {Empty("string"), Sampled(Empty("string"), <<S("sk")>>)}}},
                            f \in (IF Deep THEN Opts ELSE {{}, {"fixed"}, {"fixedType"}})}
Objects2 == {TA(Obj(<<p, q>>), f) : p \in Props2, q \in (IF Deep THEN Props2 ELSE PropsFew), f \in (IF Deep THEN Opts ELSE {{}, {"fixed"}, {"fixedType", "nullable"}})}
Objects3 == IF Deep THEN {Obj(<<p, q, r>>) : p \in PropsFew, q \in PropsFew, r \in PropsFew} ELSE {}
Items1 == Values0 \cup Mixins \cup {Ref("A", Arr(<<S("x"), Empty("string")>>)), Ref("A", TA(Arr(<<Empty("number")>>), {"fixed"})), Ref("A", Sampled(Empty("array"), <<Arr(<<S("s")>>)>>)),
                                    Ref("A", S("no array")), Mem("a", S("stray")), MkC("extend", <<Arr(<<S("x")>>), Arr(<<N1>>)>>), MkC("holder", <<S("h")>>), Empty("holder")}
Arrays1 == {TA(Arr(<<x>>), f) : x \in Items1, f \in Opts}
ItemsFew == Few \cup {Empty("number"), N1, TA(Empty("string"), {"fixed"}), Ref("A", Arr(<<S("x"), N1>>)), Enum(S("e"))}
Arrays2 == {TA(Arr(<<x, y>>), f) : x \in ItemsFew, y \in ItemsFew, f \in Opts}
Nested == {TA(Obj(<<Mem("o", TA(Obj(<<TA(Mem("i", x), h)>>), g))>>), f) : x \in Few, h \in {{}, {"optional"}, {"required"}}, g \in {{}, {"fixed"}, {"fixedType"}, {"nullable"}}, f \in Opts}
          \cup {TA(Arr(<<TA(Arr(<<x>>), g)>>), f) : x \in Few, g \in Opts, f \in Opts}
\* every sign in a key that is a pattern, in a name and in a value
Signs == {" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", ":", ";", "<", "=", ">", "?", "@", "A", "[", "\\", "]", "^", "_", "`", "a", "{", "|", "}", "~"}
Signed == {TA(Obj(<<Var(TA(S(x), f), S("v"))>>), g) : x \in Signs \cup {"a" \o y \o "b" : y \in Signs} \cup {"[a-z]+\\.", "(x|y)?", "{1}^$"}, f \in {{}, {"fixed"}}, g \in {{}, {"fixed"}}}
          \cup {TA(Obj(<<TA(Mem(x, v), f)>>), g) : x \in Signs, v \in {S("v"), Empty("number")}, f \in {{}, {"required"}}, g \in {{}, {"fixed"}}}
          \cup {TA(x, f) : x \in {S(y) : y \in Signs}, f \in {{}, {"fixed"}}}
Wrapped == {MkC("holder", <<x>>) : x \in Few} \cup {Ref("T", TA(x, f)) : x \in Few, f \in {{}, {"nullable"}}}
           \cup {MkC("extend", <<x, y>>) : x \in {TA(Empty("string"), {"nullable"}), S("a")}, y \in {S("b"), Empty("string"), TA(S("c"), {"fixed"})}}
           \cup {MkC("extend", <<Obj(<<p>>), TA(Obj(<<q>>), f)>>) : p \in PropsFew, q \in PropsFew, f \in {{}, {"fixed"}, {"fixedType"}}}
           \cup {MkC("extend", <<Enums(Empty("enum"), <<S("x")>>), Enums(Empty("enum"), <<S("y")>>)>>)}
           \cup {Empty("holder"), Empty("select"), MkC("option", <<>>), Empty("member"), Mem("a", N1)}
Structures == Values0 \cup Objects1 \cup Objects2 \cup Objects3 \cup Arrays1 \cup Arrays2 \cup Nested \cup Wrapped \cup Signed
=============================================================================

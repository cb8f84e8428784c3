------------------------------- MODULE MC_J06 -------------------------------
(* Serialising every small element tree, with and without source maps.        *)
\* CONFIG {}
EXTENDS ValuesBase

SM == Arr(<<Arr(<<N1>>)>>)
Simple == {Empty("null"), MkSet("null"), Empty("string"), S(""), S("x"), Empty("number"), N1, Empty("boolean"), MkV("boolean", "true"), MkV("boolean", "false"),
          Empty("ref"), MkV("ref", "T"), Empty("array"), Arr(<<>>), Empty("object"), Obj(<<>>), Empty("enum"), Empty("holder"), Empty("member"), Empty("extend"),
          Empty("option"), Empty("select"), MkC("select", <<>>), MkC("option", <<>>), MkC("extend", <<>>)}
Info(e) == {e} \cup {WithM(e, "id", S("T")), WithA(e, "sourceMap", SM), WithM(WithM(WithA(e, "samples", Arr(<<S("s")>>)), "id", S("T")), "title", S("t")),
            WithA(WithA(e, "sourceMap", SM), "k", WithA(S("k"), "sourceMap", SM)), WithM(e, "sourceMap", SM), WithM(e, "k", WithA(N1, "sourceMap", SM)),
            WithM(WithA(e, "typeAttributes", Arr(<<S("required")>>)), "k", Obj(<<>>))}
Names(e) == {e} \cup {[e EXCEPT !.n = x] : x \in {"annotation", "category", "sourceMap", ""}}
L0 == UNION {Info(x) : x \in UNION {Names(e) : e \in Simple}}
Kids == {S("x"), WithA(N1, "sourceMap", SM), [WithA(WithA(S("w"), "code", N1), "sourceMap", SM) EXCEPT !.n = "annotation"], Empty("object"), WithM(Arr(<<S("y")>>), "id", WithA(S("i"), "sourceMap", SM))}
Wraps(X) == {MkC(t, <<x>>) : t \in {"array", "object", "extend", "option", "enum", "holder"}, x \in X}
            \cup {MkC(t, <<x, y>>) : t \in {"array", "object"}, x \in X, y \in X}
            \cup {MkC("member", <<x, y>>) : x \in X, y \in X \cup {Nil}}
            \cup {MkC("select", <<MkC("option", <<x>>), MkC("option", <<y, x>>)>>) : x \in X, y \in X}
L1 == UNION {UNION {Info(x) : x \in {e, [e EXCEPT !.n = "annotation"]}} : e \in Wraps(Kids)}
L2 == Wraps({Arr(<<x>>) : x \in Kids} \cup {Member("k", x) : x \in Kids} \cup {WithA(MkC("enum", <<S("e")>>), "enumerations", Arr(<<x>>)) : x \in Kids})
Els == L0 \cup L1 \cup (IF Deep THEN UNION {Info(x) : x \in L2} ELSE L2)

\* what is carried, told without the operator
RECURSIVE Count(_, _), CountInfo(_, _), Objects(_), NoMaps(_), UnderAnnotation(_)
CountInfo(x, maps) == FoldLeft(LAMBDA a, p : a + (IF maps \/ p.k # "sourceMap" THEN Count(p.el, maps) ELSE 0), 0, x)
Count(e, maps) == 1 + CountInfo(e.m, maps) + CountInfo(e.a, maps \/ e.n = "annotation") + FoldLeft(LAMBDA a, x : IF IsNil(x) THEN a ELSE a + Count(x, maps), 0, e.c)
Objects(x) == (IF x.k = "object" /\ HasKey(x, "element") /\ x.ks[1] = "element" THEN 1 ELSE 0) + FoldLeft(LAMBDA a, y : a + Objects(y), 0, x.c)
NoMaps(x) == (\A i \in 1..Len(x.ks) : x.ks[i] # "sourceMap") /\ \A i \in 1..Len(x.c) : NoMaps(x.c[i])
UnderAnnotation(x) == x.k = "object" /\ HasKey(x, "element") /\ GetKey(x, "element").v = "annotation"
RECURSIVE OnlyThere(_)
OnlyThere(x) == UnderAnnotation(x) \/ ((\A i \in 1..Len(x.ks) : x.ks[i] # "sourceMap") /\ \A i \in 1..Len(x.c) : OnlyThere(x.c[i]))
RECURSIVE Ordered(_)
Ordered(x) == (x.k = "object" /\ HasKey(x, "element") => x.ks \in {s \in SeqsUpTo({"element", "meta", "attributes", "content"}, 4) : Len(s) > 0 /\ s[1] = "element" /\
                  \A i, j \in 1..Len(s) : i < j => <<s[i], s[j]>> \in {<<"element", "meta">>, <<"element", "attributes">>, <<"element", "content">>, <<"meta", "attributes">>, <<"meta", "content">>, <<"attributes", "content">>}})
Carries(e, maps) == LET t == Tree(e, maps)
                    IN  /\ Objects(t) = Count(e, maps)
                        /\ t.c[1].v = e.n
                        /\ HasKey(t, "content") = e.s
                        /\ HasKey(t, "meta") = (\E i \in 1..Len(e.m) : maps \/ e.m[i].k # "sourceMap")
                        /\ (~maps => OnlyThere(t))
                        /\ Ordered(t)
Init == part \in Parts /\ vals = InitVals
Next == \E e \in Share(Els), b \in BOOLEAN : Judge([op |-> "tree", el |-> e, b |-> b], Carries(e, b))
Spec == Init /\ [][Next]_vars
=============================================================================

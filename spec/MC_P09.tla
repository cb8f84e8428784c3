------------------------------- MODULE MC_P09 -------------------------------
(* Data structures: every property of every kind with up to two attributes    *)
(* and values, every short sequence of sections, and types from types.        *)
\* CONFIG {}
EXTENDS MsonBase

KindList == <<"", "string", "number", "boolean", "array", "enum", "object">>
KindSet == {KindList[i] : i \in 1..7}
Words1 == <<"required", "optional", "fixed", "fixed-type", "nullable", "default", "sample">>
AtLists == {<<>>} \cup {<<Words1[i]>> : i \in 1..7} \cup ({<<Words1[i], Words1[j]>> : i \in 1..7, j \in 1..7} \ {<<Words1[i], Words1[i]>> : i \in 1..7})
ShortAt == {<<>>} \cup {<<Words1[i]>> : i \in 1..7}
ValLists == {<<>>, <<Lone("a")>>, <<Lone("42")>>, <<Lone("true")>>, <<VarVal("a")>>, <<VarVal("42")>>, <<Lone("a"), Lone("a")>>, <<Lone("1"), Lone("a")>>}
\* one property
Prop1(k, at, vs) == Replying("", Plainly("object"), <<Mem("id", vs, TypeAs(k, <<>>, at), "", <<>>)>>)
Docs1 == {Prop1(k, at, vs) : k \in KindSet, at \in IF Deep THEN AtLists ELSE ShortAt, vs \in ValLists}
         \cup {Prop1(k, at, vs) : k \in {"string", "enum"}, at \in AtLists, vs \in {<<>>, <<Lone("a")>>}}
\* the property is what it says
Law1(doc, r) ==
  LET s == doc[2].b[1].b[1].s
      m == Written(r)[1].c[1]
      x == m.c[2]
      k == IF s.td.ty # "" THEN s.td.ty ELSE IF Len(s.vs) > 1 THEN "array" ELSE "string"
      has(w) == \E i \in 1..Len(s.td.at) : s.td.at[i] = w
      given == InfoGet(m.a, "typeAttributes")
      \* a comma stands for itself in what is one value
      text == JoinWith([i \in 1..Len(s.vs) |-> s.vs[i].x], ", ")
      good == Readable2(k, text)
      held(a) == InfoHas(x.a, a)
      aside == has("default") \/ has("sample") \/ s.vs[1].v
  IN  /\ SaneAll(doc, r)
      /\ r.rc = 0
      /\ Len(Written(r)[1].c) = 1 /\ m.c[1].v = "id" /\ x.t = k
      /\ {given.c[i].v : i \in 1..Len(given.c)} = {IF s.td.at[i] = "fixed-type" THEN "fixedType" ELSE s.td.at[i] : i \in {j \in 1..Len(s.td.at) : s.td.at[j] \notin {"default", "sample"}}}
      /\ s.vs = <<>> => ~held("default") /\ ~held("samples")
      /\ s.vs # <<>> /\ k \in Prims =>
           /\ held("default") = has("default")
           /\ held("samples") = (~has("default") /\ (has("sample") \/ s.vs[1].v))
           /\ x.s = ~aside
           /\ x.s /\ good => x.v = text
           /\ ~good => \E n \in 1..Len(r.notes) : r.notes[n].code = eMson
           /\ has("default") /\ good => InfoGet(x.a, "default").v = text
\* the sections of a property
SecsOf == {Sec("Default", <<>>, <<P("42")>>), Sec("Default", <<Lone("a")>>, <<>>), Sec("Sample", <<Lone("42")>>, <<>>), Sec("Sample", <<Lone("a"), Lone("b")>>, <<>>),
           Sec("Sample", <<>>, <<Item("a", Plainly("")), Item("42", Plainly("number"))>>), Sec("Default", <<>>, <<Mem("x", <<Lone("a")>>, Plainly(""), "", <<>>)>>),
           Sec("Items", <<>>, <<Item("a", Plainly("")), Item("a", Plainly(""))>>), Sec("Members", <<>>, <<Item("b", Plainly("string")), Item("", Plainly("number"))>>),
           Sec("Properties", <<>>, <<Mem("x", <<>>, Plainly("number"), "told", <<>>)>>), Sec("Items", <<>>, <<>>)}
Docs2 == {Replying("", Plainly("object"), <<Mem("id", vs, Plainly(k), "", bs)>>) : k \in KindSet, vs \in {<<>>, <<Lone("b")>>}, bs \in SeqsUpTo(SecsOf, IF Deep THEN 2 ELSE 1)}
         \cup {Replying("", Plainly(k), bs) : k \in KindSet, bs \in SeqsUpTo(SecsOf, IF Deep THEN 2 ELSE 1)}
         \cup {Replying("", Plainly("object"), <<Mem("id", <<>>, Plainly(k), "", <<P("told")>> \o bs)>>) : k \in KindSet, bs \in SeqsUpTo(SecsOf, 1)}
\* the sections of a type
SecHeads == {TSecH("Default", <<Lone("a")>>), TSecH("Sample", <<>>), TSecH("Items", <<>>), TSecH("Properties", <<>>), TSecH("Members", <<>>), TSecH("Sample", <<Lone("42")>>)}
BehindHead == {<<>>, <<Item("a", Plainly(""))>>, <<Item("42", Plainly("number")), Item("b", Plainly(""))>>, <<Mem("x", <<Lone("a")>>, Plainly(""), "", <<>>)>>}
Docs3 == {<<DsH, TypeH("A", Plainly(k)), h>> \o b : k \in KindSet, h \in SecHeads, b \in BehindHead}
         \cup {<<DsH, TypeH("A", Plainly(k))>> \o a \o <<h>> \o b : k \in {"array", "enum", "object"}, a \in BehindHead \ {<<>>}, h \in {TSecH("Sample", <<>>), TSecH("Default", <<Lone("a")>>)}, b \in BehindHead \ {<<>>}}
\* types from types
TypeBases == {Plainly("object"), Plainly("B"), Plainly("C"), Plainly("array"), TypeAs("array", <<"B">>, <<>>), TypeAs("enum", <<"C">>, <<>>), Plainly("string"), Plainly(""), TypeAs("B", <<>>, <<"nullable">>)}
TypeBodies == {<<>>, <<Mem("x", <<Lone("1")>>, Plainly("number"), "", <<>>)>>, <<Mixin("B")>>, <<Mem("y", <<>>, Plainly("B"), "", <<>>), Mixin("C")>>, <<Mem("y", <<>>, TypeAs("array", <<"B">>, <<>>), "", <<>>)>>, <<Mem("y", <<>>, Plainly("A"), "", <<>>)>>,
           <<OneI(<<Mem("x", <<>>, Plainly(""), "", <<>>), Mem("y", <<Lone("a")>>, Plainly(""), "", <<>>)>>)>>, <<OneI(<<>>)>>, <<OneI(<<Mixin("B"), Sec("Properties", <<>>, <<Mem("u", <<>>, Plainly(""), "", <<>>), Mem("w", <<>>, Plainly(""), "", <<>>)>>)>>)>>,
           <<VarMem("v", Plainly(""), <<Lone("a")>>, Plainly(""))>>, <<VarMem("v", Plainly("C"), <<>>, Plainly("number"))>>, <<VarMem("v", Plainly("B"), <<>>, Plainly("number"))>>}
TypeBs == {<<TypeH("B", Plainly("object")), Mem("x", <<>>, Plainly(""), "", <<>>)>>, <<TypeH("B", Plainly("A"))>>, <<TypeH("B", Plainly("array")), Item("a", Plainly(""))>>}
TypeCs == {<<TypeH("C", Plainly("string"))>>, <<TypeH("C", Plainly("enum")), Item("a", Plainly("")), Item("b", Plainly(""))>>, <<TypeH("C", Plainly("B"))>>}
TypedKey(b) == b # <<>> /\ b[1].s.k = "mem" /\ b[1].s.nv /\ b[1].s.kt.ty # ""
Few(b) == Deep \/ Len(b) < 2
AllCs == IF Deep THEN TypeCs ELSE {<<TypeH("C", Plainly("string"))>>}
Docs4 == {<<DsH, TypeH("A", t)>> \o b \o tb \o tc : t \in TypeBases, b \in {x \in TypeBodies : Few(x) /\ ~TypedKey(x)}, tb \in TypeBs, tc \in AllCs}
         \cup {<<DsH, TypeH("A", Plainly("object"))>> \o b \o tb \o tc : b \in TypeBodies, tb \in TypeBs, tc \in AllCs}
         \cup {<<DsH, TypeH("A", t)>> \o tb \o tc : t \in TypeBases, tb \in TypeBs, tc \in TypeCs}
         \cup {<<DsH, TypeH("C", Plainly("enum"))>> \o b \o <<TypeH("B", Plainly("object"))>> \o Replying("", TypeAs(t, <<>>, at), bs) :
                 b \in {<<Item("a", Plainly(""))>>}, t \in {"B", "C", "array", "Nope"}, at \in {<<>>, <<"nullable">>}, bs \in {<<>>, <<Item("b", Plainly(""))>>, <<Mem("x", <<>>, Plainly("C"), "told", <<P("more")>>)>>}}
\* what has no name where names are asked for
Nameless(vs, d) == {Replying("", Plainly("object"), a \o <<Mem("", vs, t, d, b)>> \o c) : t \in (IF d # "" /\ vs = <<>> THEN {} ELSE {Plainly("")}) \cup {Plainly("number"), TypeAs("", <<>>, <<"required">>), TypeAs("enum", <<"boolean">>, <<>>)}, b \in {<<>>, <<Item("a", Plainly(""))>>},
             a \in {<<>>, <<Mem("x", <<>>, Plainly(""), "", <<>>)>>}, c \in {<<>>, <<Item("", Plainly("boolean"))>>}}
Docs6 == Nameless(<<>>, "") \cup Nameless(<<Lone("v")>>, "") \cup Nameless(<<>>, "told") \cup Nameless(<<Lone("v")>>, "told")
\* what is said about resources and actions
Docs5 == {<<NamedH(n, <<Lit("/a")>>), AttrsI(t, b), ActH("GET"), AttrsI(u, c), Request("", "", <<AttrsI(Plainly("A"), <<>>)>>), Response("200", "", <<AttrsI(Plainly("A"), c)>>)>> :
             n \in {"A", "Z"}, t \in {Plainly("object"), Plainly("string"), Plainly("A")}, b \in {<<>>, <<Mem("x", <<>>, Plainly(""), "", <<>>)>>}, u \in {Plainly("A"), Plainly("")}, c \in {<<>>, <<Mem("y", <<>>, Plainly("number"), "", <<>>)>>}}
         \cup {<<NamedH("A", <<Lit("/a")>>), AttrsI(Plainly("object"), <<>>), ActH("GET"), Response("200", "", <<>>)>> \o <<DsH, TypeH("A", Plainly("object"))>>,
               <<UriH(<<Lit("/a")>>), AttrsI(Plainly("object"), <<>>), AttrsI(Plainly("array"), <<>>), ActH("GET"), Response("200", "", <<AttrsI(Plainly(""), <<>>), AttrsI(Plainly("string"), <<>>)>>)>>}
\* no type is made of itself
Circles(doc, r) == LET ts == {i \in 1..Len(doc) : doc[i].k = "h" /\ doc[i].s.k = "type"}
                   IN  (\E i \in ts : doc[i].s.td.ty = doc[i].s.x \/ \E j \in ts : doc[i].s.td.ty = doc[j].s.x /\ doc[j].s.td.ty = doc[i].s.x) => r.rc # 0
Law4(doc, r) == SaneAll(doc, r) /\ Circles(doc, r)

Init == part \in Parts
Next == \/ \E doc \in Share(Docs1) : Judge(doc, NoOpts, Law1)
        \/ \E doc \in Share(Docs2 \cup Docs3 \cup Docs6) : Judge(doc, NoOpts, SaneAll)
        \/ \E doc \in Share(Docs4) : Judge(doc, NoOpts, Law4)
        \/ \E doc \in Share(Docs5) : Judge(doc, NoOpts, Sound)
Spec == Init /\ [][Next]_vars
=============================================================================

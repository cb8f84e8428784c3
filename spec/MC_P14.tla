------------------------------- MODULE MC_P14 -------------------------------
(* Bodies and schemas made for requests and responses: every combination of   *)
(* media type, options, what is given and where the attributes come from.     *)
\* CONFIG {}
EXTENDS MsonBase

Medias == {"", "application/json", "Application/JSON; charset=utf-8", "application/hal+json", "application/problem+JSON", "text/plain", "application/xml", "application/jsonp", "text/json", "application/json+x", "broken"}
Name1 == Mem("n", <<Lone("v")>>, Plainly(""), "", <<>>)
Givens == {<<>>, <<BodyI(<<C(<<"own body">>)>>)>>, <<SchemaI(<<C(<<"own schema">>)>>)>>, <<BodyI(<<C(<<"b">>)>>), SchemaI(<<C(<<"s">>)>>)>>, <<HeadersI(<<C(<<"Content-Type: application/json">>)>>)>>,
           <<HeadersI(<<C(<<"content-type: text/csv">>)>>), BodyI(<<C(<<"a,b">>)>>)>>}
AttrsOr == {<<>>, <<AttrsI(Plainly("object"), <<Name1>>)>>, <<AttrsI(Plainly("array"), <<>>)>>}
Opts == {[NoOpts EXCEPT !.bodies = b, !.schemas = s] : b \in BOOLEAN, s \in BOOLEAN}
\* one request and one response of an action with or without attributes
Whole1(up, q, qt, qb, s, st, sb) == <<WholeH("POST", <<Lit("/a")>>)>> \o up \o (IF q THEN <<Request("", qt, qb)>> ELSE <<>>) \o <<Response("200", st, sb)>>
Docs1 == {Whole1(up, FALSE, "", <<>>, TRUE, m, at \o g) : up \in {<<>>, <<AttrsI(Plainly(""), <<Name1>>)>>}, m \in Medias, at \in AttrsOr, g \in Givens}
         \cup {Whole1(up, TRUE, m, at \o g, TRUE, "application/json", <<>>) : up \in AttrsOr, m \in Medias, at \in AttrsOr, g \in IF Deep THEN Givens ELSE {<<>>, <<BodyI(<<C(<<"own body">>)>>)>>}}
ClassIs(x, class) == x.n = "asset" /\ \E i \in 1..Len(x.m) : x.m[i].k = "classes" /\ x.m[i].el.c[1].v = class
Assets(e, class) == SelectSeq(e.c, LAMBDA x : ClassIs(x, class))
Has2(bs, k) == \E i \in 1..Len(bs) : bs[i].k = "i" /\ bs[i].s.k = k
\* what was given stands; what was not is made if there are attributes and the type is one of JSON
Made(b, up, e, o) ==
  LET ct == HeaderOf([i \in 1..Len(InfoGet(e.a, "headers").c) |-> [k |-> InfoGet(e.a, "headers").c[i].c[1].v, v |-> InfoGet(e.a, "headers").c[i].c[2].v]], "Content-Type")
      json == LowerStr(ct) \in {"application/json", "application/json; charset=utf-8", "application/hal+json", "application/problem+json"}
      can == json /\ (Has2(b.b, "attributes") \/ up)
      body == Assets(e, "messageBody")
      schema == Assets(e, "messageBodySchema")
  IN  /\ Len(body) = (IF Has2(b.b, "body") \/ (can /\ ~o.bodies) THEN 1 ELSE 0)
      /\ Len(schema) = (IF Has2(b.b, "schema") \/ (can /\ ~o.schemas) THEN 1 ELSE 0)
      /\ Has2(b.b, "body") => body[1].v \in {"own body\n", "b\n", "a,b\n"}
      /\ Has2(b.b, "schema") => schema[1].v \in {"own schema\n", "s\n"}
      /\ ~Has2(b.b, "body") /\ Len(body) = 1 => body[1].v \in {"{\n  \"n\": \"v\"\n}", "[]"}
      /\ Len(schema) = 1 => InfoGet(schema[1].a, "contentType").v = IF json THEN "application/schema+json" ELSE "text/plain"
Law1(doc, r, o) ==
  LET up == doc[2].s.k = "attributes"
      q == SelectSeq(doc, LAMBDA b : b.k = "i" /\ b.s.k = "request")
      s == SelectSeq(doc, LAMBDA b : b.k = "i" /\ b.s.k = "response")
  IN  /\ SaneAll(doc, r) /\ r.rc = 0
      /\ Made(s[1], FALSE, NamedEls(r, "httpResponse")[1], o)
      /\ q # <<>> => Made(q[1], up, NamedEls(r, "httpRequest")[1], o)
\* the bodies of all structures: a body reads back as JSON that its schema accepts
KindSet == {"", "string", "number", "boolean", "array", "enum", "object"}
Docs2 == {Replying("application/json", Plainly("object"), <<Mem("id", vs, TypeAs(k, <<>>, at), "", <<>>)>>) : k \in KindSet, vs \in {<<>>, <<Lone("a")>>, <<VarVal("42")>>, <<Lone("1"), Lone("a")>>, <<Lone("true")>>},
              at \in {<<>>, <<"required">>, <<"fixed">>, <<"nullable">>, <<"default">>, <<"sample">>, <<"optional">>, <<"fixed-type">>} \cup IF Deep THEN {<<"fixed", "nullable">>, <<"required", "nullable">>, <<"fixed-type", "nullable">>, <<"required", "default">>, <<"fixed", "sample">>} ELSE {}}
         \cup {Replying("application/json", TypeAs(k, n, at), b) : k \in {"array", "enum"}, n \in {<<>>, <<"number">>, <<"string", "number">>}, at \in {<<>>, <<"fixed">>, <<"fixed-type">>, <<"nullable">>},
                 b \in {<<>>, <<Item("1", Plainly(""))>>, <<Item("1", Plainly("number")), Item("a", Plainly("string"))>>, <<Item("", Plainly("string")), Item("2", Plainly(""))>>, <<Item("1", Plainly("")), Sec("Default", <<Lone("1")>>, <<>>)>>,
                        <<Sec("Sample", <<Lone("1"), Lone("2")>>, <<>>)>>, <<Item("3", TypeAs("number", <<>>, <<"fixed">>))>>}}
Types2 == {<<DsH, TypeH("B", Plainly(k)), m>> : k \in {"object", ""}, m \in {Mem("x", <<Lone("1")>>, Plainly("number"), "", <<>>), Mem("x", <<>>, TypeAs("B", <<>>, <<>>), "", <<>>), Mem("x", <<>>, TypeAs("array", <<"B">>, <<>>), "", <<>>)}}
          \cup {<<DsH, TypeH("B", Plainly("object")), Mem("x", <<Lone("a")>>, Plainly(""), "", <<>>), TypeH("C", Plainly("B")), Mem("x", <<Lone("b")>>, TypeAs("", <<>>, <<"required">>), "", <<>>), Mem("z", <<>>, Plainly("B"), "", <<>>)>>,
                <<DsH, TypeH("B", Plainly("enum")), Item("a", Plainly("")), Item("b", Plainly("")), TypeH("C", Plainly("B")), Item("c", Plainly(""))>>,
                <<DsH, TypeH("B", Plainly("array")), Item("a", Plainly("")), TypeH("C", Plainly("B")), Item("c", Plainly("number"))>>,
                <<DsH, TypeH("B", Plainly("string")), TSecH("Default", <<Lone("dd")>>), TypeH("C", Plainly("B")), TSecH("Sample", <<Lone("ss")>>)>>}
Docs3 == {t \o Replying("application/json", a, b) : t \in Types2, a \in {Plainly("B"), Plainly("object"), TypeAs("array", <<"B">>, <<>>), TypeAs("B", <<>>, <<"fixed">>)},
             b \in {<<>>, <<Mem("x", <<>>, Plainly("B"), "", <<>>)>>, <<Mem("y", <<>>, Plainly(""), "", <<>>), Mixin("B")>>, <<OneI(<<Mem("x", <<>>, Plainly("B"), "", <<>>), Mem("w", <<Lone("q")>>, TypeAs("", <<>>, <<"fixed">>), "", <<>>)>>)>>,
                    <<VarMem("v", Plainly(""), <<Lone("1")>>, Plainly("number"))>>}}
         \cup {t \o Replying("application/json", a, <<>>) : t \in {x \in Types2 : Len(x) > 3}, a \in {Plainly("C"), TypeAs("C", <<>>, <<"nullable">>), TypeAs("array", <<"C", "B">>, <<"fixed">>)}}
\* types that include one another: an error on a circle, else what it means
Docs4 == {<<DsH, TypeH("B", Plainly(IF up THEN "A" ELSE "object")), Mixin("A"), TypeH("A", Plainly("object")), Mem("x", <<>>, Plainly("array"), "", <<Item("", Plainly("B"))>>)>> \o up2 \o <<WholeH("POST", <<Lit("/")>>), Request("", m, <<AttrsI(Plainly(""), <<x>>)>>), Response("200", "application/json", <<>>)>> :
                 up \in BOOLEAN, m \in {"", "application/json"}, x \in {Mixin("A"), Mixin("B"), Mem("y", <<>>, Plainly("B"), "", <<>>), Mem("z", <<>>, TypeAs("array", <<"A">>, <<>>), "", <<>>)}, up2 \in {<<>>, <<TypeH("C", Plainly("enum")), Item("a", Plainly("")), Mixin("C")>>}}
\* what comes out is JSON, and the schema admits the body
RECURSIVE InWords(_)
InWords(v) == [v EXCEPT !.v = TextOf(@), !.ks = [i \in 1..Len(@) |-> TextOf(@[i])], !.c = [i \in 1..Len(@) |-> InWords(@[i])]]
Reading(x) == ReadJson(OctetsOf(x))
\* (what is fixed may demand a value that no one gave, MC_J05 tells when)
RECURSIVE NoFixed(_)
NoFixed(bs) == \A i \in 1..Len(bs) : bs[i].k = "i" /\ bs[i].s.k \in {"attributes", "mem", "response", "sec", "one"} =>
                 /\ (bs[i].s.k \in {"attributes", "mem"} => \A j \in 1..Len(bs[i].s.td.at) : bs[i].s.td.at[j] \notin {"fixed", "fixed-type"})
                 /\ (bs[i].s.k = "mem" => ~bs[i].s.nv)          \* (nor what any name stands for)
                 /\ NoFixed(bs[i].b)
\* (and an enum of nothing has no instance)
Chosen(r) == \A i \in 1..Len(Written(r)) : LET es == All3(Written(r)[i]) IN \A j \in 1..Len(es) : es[j].t = "enum" => es[j].s \/ InfoGet(es[j].a, "enumerations").c # <<>>
Law2(doc, r) ==
  LET all == NamedEls(r, "httpResponse")
      e == all[1]
      as == Assets(e, "messageBody") \o Assets(e, "messageBodySchema")
  IN  /\ SaneAll(doc, r)
      /\ r.rc = 0 => Len(as) = 2 /\ LET body == Reading(as[1].v)  schema == Reading(as[2].v) IN body.ok /\ schema.ok /\ (NoFixed(doc) /\ Chosen(r) => Admits(InWords(schema.x), InWords(body.x)))

Law4(doc, r) == SaneAll(doc, r) /\ r.rc \in {0, 4}

Init == part \in Parts
Next == \/ \E doc \in Share(Docs1), o \in Opts : Judge(doc, o, LAMBDA d, r : Law1(d, r, o))
        \/ \E doc \in Share(Docs2 \cup Docs3) : Judge(doc, NoOpts, Law2)
        \/ \E doc \in Share(Docs4) : Judge(doc, NoOpts, Law4)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_P03 -------------------------------
(* What requests and responses say: every short sequence of headers, bodies,  *)
(* schemas and text inside one.                                               *)
\* CONFIG {}
EXTENDS BlueBase

Parts1 == {HeadersI(<<C(<<"A: 1", "B:  two">>)>>), HeadersI(<<C(<<"Content-Type: text/csv">>)>>), HeadersI(<<C(<<"a: 2", "Bad(: 3", ": 4", "D", "E:">>)>>),
           BodyI(<<C(<<"{", "", "  1">>)>>), BodyI(<<F(<<"in a fence">>)>>), BodyI(<<P("no code")>>), SchemaI(<<C(<<"schema text">>)>>),
           ILs([k |-> "body"], <<"on the line">>)}
Texts1 == {P("words"), F(<<"fenced words">>), I([k |-> "text", x |-> "two words"], <<>>)}
Payloads == {[k |-> "request", n |-> "", t |-> "", j |-> ""], [k |-> "request", n |-> "Named", t |-> "application/json", j |-> ""],
             [k |-> "response", n |-> "200", t |-> "application/hal+json", j |-> ""], [k |-> "response", n |-> "204", t |-> "", j |-> ""],
             [k |-> "response", n |-> "", t |-> "text/plain; a=b", j |-> ""]}
Small == {s \in Payloads : s.t = ""}
Insides == SeqsUpTo(Parts1, 2) \cup {<<t>> \o s : t \in Texts1, s \in SeqsUpTo(Parts1, IF Deep THEN 2 ELSE 1)}
           \cup {<<x, t>> : t \in Texts1 \ {F(<<"fenced words">>)}, x \in Parts1}
Deeper == IF Deep THEN SeqsUpTo(Parts1, 3) ELSE {}
\* where code would join what is before it
Fine(bs) == \A i \in 2..Len(bs) : bs[i].k # "c" \/ bs[i].f \/ bs[i - 1].k = "p"
Wrap(s, bs) == <<WholeH("PUT", <<Lit("/a")>>)>> \o <<I(s, bs)>> \o (IF s.k = "request" THEN <<Response("201", "", <<>>)>> ELSE <<>>)
Docs == {Wrap(s, bs) : s \in Payloads, bs \in {b \in Insides : Fine(b)}} \cup {Wrap(s, bs) : s \in Small, bs \in Deeper}

\* the last body given is the body, the last schema the schema, all headers in order behind the content type of the signature
Given(doc, k) == SelectSeq(doc[2].b, LAMBDA b : b.k = "i" /\ b.s.k = k)
Words(b) == IF b.ls # <<>> THEN JoinWith(b.ls, "\n") \o "\n" ELSE JoinWith(b.b[1].ls, "\n") \o "\n"
Mine2(doc, r) == (NamedEls(r, IF doc[2].s.k = "request" THEN "httpRequest" ELSE "httpResponse"))[1]
Asset(e, class) == LET y == SelectSeq(e.c, LAMBDA x : x.n = "asset" /\ x.m[1].el.c[1].v = class) IN IF y = <<>> THEN "" ELSE y[1].v
Types(doc) == IF doc[2].s.t = "" THEN <<>> ELSE <<"Content-Type">>
Names2(b) == CASE b.b[1].ls[1] = "A: 1" -> <<"A", "B">> [] b.b[1].ls[1] = "a: 2" -> <<"a", "D", "E">> [] OTHER -> <<"Content-Type">>
HeaderNames(e) == LET y == SelectSeq(e.a, LAMBDA z : z.k = "headers") IN IF y = <<>> THEN <<>> ELSE [i \in 1..Len(y[1].el.c) |-> y[1].el.c[i].c[1].v]
Stands(doc, r) ==
  LET e == Mine2(doc, r)
      bodies == Given(doc, "body")
      schemas == Given(doc, "schema")
      hs == Given(doc, "headers")
      loose == SelectSeq(doc[2].b, LAMBDA b : b.k # "i" \/ b.s.k = "text")
      full == Len(loose) < Len(doc[2].b)
  IN  full => /\ loose = <<>> => Asset(e, "messageBody") = IF bodies = <<>> THEN "" ELSE Words(bodies[Len(bodies)])
              /\ Asset(e, "messageBodySchema") = IF schemas = <<>> THEN "" ELSE Words(schemas[Len(schemas)])
              /\ HeaderNames(e) = Types(doc) \o Concat([i \in 1..Len(hs) |-> Names2(hs[i])])
              /\ Len(bodies) > 1 => Noted(r, wRedefine, Starts2(doc)[2] + 2 + Len(BlocksLines(SubSeq(doc[2].b, 1, CHOOSE i \in 2..Len(doc[2].b) :
                     doc[2].b[i] = bodies[Len(bodies)] /\ \A j \in (i + 1)..Len(doc[2].b) : doc[2].b[j].k # "i" \/ doc[2].b[j].s.k # "body") , FALSE))
                     - Len(BlockLines(bodies[Len(bodies)])))
Law(doc, r) == Sound(doc, r) /\ r.rc = 0 /\ Stands(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
Spec == Init /\ [][Next]_vars
=============================================================================

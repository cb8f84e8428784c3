------------------------------- MODULE MC_P06 -------------------------------
(* Problems: every short sequence of sections, text and oddities where they   *)
(* do not belong.                                                             *)
\* CONFIG {}
EXTENDS BlueBase

Odd == {P("loose words"), F(<<"code">>), I([k |-> "text", x |-> "two words"], <<P("inside")>>), P("[A][]"), HeadersI(<<C(<<"X: 1">>)>>), HeadersI(<<>>),
        I([k |-> "relation", x |-> "self"], <<>>), I([k |-> "relation", x |-> "Not One"], <<>>), ParamsI(<<ParamI("z", "", <<>>, "", FALSE, <<>>)>>),
        ParamsI(<<>>), Response("200", "", <<C(<<"b">>)>>), I([k |-> "request", n |-> "", t |-> "a/b", j |-> "junk"], <<C(<<"q">>)>>), Request("", "", <<>>),
        Response("", "", <<BodyI(<<>>)>>), BodyI(<<C(<<"stray">>)>>), SchemaI(<<C(<<"stray">>)>>), Model("", "", <<C(<<"m">>)>>), Model("A", "", <<C(<<"m">>)>>),
        TitleH("Stray")}
Begins == {<<WholeH("HEAD", <<Lit("/a")>>)>>, <<UriH(<<Lit("/a")>>)>>, <<NamedH("A", <<Lit("/a"), Ex("", <<"z">>)>>), NamedActH("L", "GET")>>, <<GroupH("G")>>, <<TitleH("T")>>}
Fine(bs) == \A i \in 2..Len(bs) : bs[i].k # "c" \/ bs[i].f
Docs == {b \o s : b \in Begins, s \in SeqsUpTo(Odd, 2)} \cup SeqsUpTo(Odd, 1)
        \cup {b \o <<Response("201", "", <<C(<<"first">>)>>)>> \o s : b \in Begins, s \in SeqsUpTo(Odd, IF Deep THEN 2 ELSE 1)}
        \cup {<<UriH(<<Lit("/a")>>)>> \o s \o <<UriH(<<Lit("/a")>>), ActH("GET")>> : s \in SeqsUpTo(Odd, 1)}
        \cup {<<TitleH("T")>> \o b \o s : b \in Begins, s \in SeqsUpTo(Odd, IF Deep THEN 3 ELSE 1)}
        \cup {<<NamedH("N", <<Lit("/a")>>), ActH("GET"), x, y>> : x \in {Request("A", "", <<y>>) : y \in Odd \ {TitleH("Stray")}}, y \in {Response("100", "", <<x>>) : x \in Odd \ {TitleH("Stray")}}}
\* with and without a required name
Law(doc, r) == Sound(doc, r)
NameLaw(doc, r) == Sound(doc, r) /\ (r.rc = eBusiness) = (doc # <<>> /\ (doc[1].k # "h" \/ Kw([kids |-> <<>>] @@ doc[1]) # ""))
NamedSix == [NoOpts EXCEPT !.name = TRUE]

Init == part \in Parts
Next == \/ \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
        \/ \E doc \in Share({d \in Docs : Len(d) < 3}) : Judge(doc, NamedSix, NameLaw)
Spec == Init /\ [][Next]_vars
=============================================================================

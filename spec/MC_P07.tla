------------------------------- MODULE MC_P07 -------------------------------
(* Where everything comes from: the documents of small outlines, payloads and *)
(* parameters, with source maps.                                              *)
\* CONFIG {}
EXTENDS BlueBase

U1 == <<Lit("/one")>>
U2 == <<Lit("/two"), Ex("?", <<"v">>)>>
Pieces == {P("first words"), F(<<"fenced">>), C(<<"indented", "", "more">>), I([k |-> "text", x |-> "two words"], <<P("inside")>>)}
Secs == {<<NamedH("Res", U1), P("res words")>>, <<UriH(U2), ParamsI(<<ParamI("v", "1", <<"number">>, "why", FALSE, <<I([k |-> "default", x |-> "5"], <<>>)>>)>>)>>,
         <<NamedActH("Act", "GET"), P("act words"), F(<<"act code">>)>>, <<ActH("PUT"), I([k |-> "relation", x |-> "self"], <<>>)>>,
         <<Request("Q", "text/plain", <<P("told"), HeadersI(<<C(<<"A: 1", "B: 2">>)>>), BodyI(<<C(<<"q body">>)>>)>>)>>,
         <<Response("200", "", <<C(<<"s body", "two">>)>>)>>, <<Response("201", "", <<SchemaI(<<F(<<"the schema">>)>>), BodyI(<<F(<<"b1">>)>>), BodyI(<<C(<<"b2">>)>>)>>)>>,
         <<Model("Mod", "", <<BodyI(<<C(<<"m body">>)>>)>>)>>, <<ILs([k |-> "response", n |-> "202", t |-> "", j |-> ""], <<"[Mod][]">>)>>,
         <<GroupH("Grp"), P("grp words"), P("grp more")>>, <<P("tail words")>>}
Fine(bs) == \A i \in 2..Len(bs) : bs[i].k # "c" \/ bs[i].f \/ bs[i - 1].k = "p"
Docs == {d \in {Concat(s) : s \in SeqsUpTo(Secs, IF Deep THEN 4 ELSE 3)}
               \cup {<<TitleH("T")>> \o p \o <<NamedH("Res", U1)>> \o q : p \in SeqsUpTo(Pieces, 2), q \in SeqsUpTo(Pieces, 1)}
               \cup {<<[k |-> "p", ls |-> <<"K: v", "L: w">>], TitleH("T")>> \o p : p \in SeqsUpTo(Pieces, 2)} : Fine(d)}
LineSet(doc) == {Trim(BlocksLines(doc, FALSE)[i]) : i \in 1..Len(BlocksLines(doc, FALSE))}
RECURSIVE Everything(_)
Everything(e) == <<e>> \o Concat([i \in 1..Len(e.c) |-> Everything(e.c[i])])
                 \o Concat([i \in 1..Len(e.a) |-> IF e.a[i].k = "sourceMap" THEN <<>> ELSE Everything(e.a[i].el)]) \o Concat([i \in 1..Len(e.m) |-> Everything(e.m[i].el)])
MapOf(e) == LET y == SelectSeq(e.a, LAMBDA z : z.k = "sourceMap") IN IF y = <<>> THEN <<>> ELSE y[1].el.lines
\* every map names lines of the document, in which every line of a text is found, whatever marks stand around it
Texted(e) == e.t = "string" /\ MapOf(e) # <<>>
Traced(doc, r) ==
  LET es == IF r.cats = 0 THEN <<>> ELSE Everything(r.ast)
      found(l, m) == \E i \in 1..Len(m) : Holds(m[i], l)
      words(t) == SelectSeq(LinesOf(t), LAMBDA l : Trim(l) # "")
  IN  /\ \A i \in 1..Len(es) : \A j \in 1..Len(MapOf(es[i])) : \E l \in LineSet(doc) : Holds(l, MapOf(es[i])[j])
      /\ \A i \in 1..Len(es) : Texted(es[i]) => \A j \in 1..Len(words(es[i].v)) : found(Trim(words(es[i].v)[j]), MapOf(es[i]))
Law(doc, r) == Sound(doc, r) /\ Traced(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, WithMaps, Law)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_P05 -------------------------------
(* URI parameters: every combination of what a parameter can say, in the      *)
(* present and in the old notation, known to the URI or not.                  *)
\* CONFIG {}
EXTENDS BlueBase

Vals(xs) == [i \in 1..Len(xs) |-> I([k |-> "val", x |-> xs[i]], <<>>)]
Members(xs) == I([k |-> "members"], Vals(xs))
OldValues(xs) == I([k |-> "values"], Vals(xs))
DefaultI(x) == I([k |-> "default", x |-> x], <<>>)
SampleI(x) == I([k |-> "sample", x |-> x], <<>>)
NewAts == {<<>>, <<"required">>, <<"optional">>, <<"number">>, <<"enum[string]">>, <<"optional", "number">>, <<"string", "Required">>, <<"optional", "string", "x">>, <<"a", "b">>}
OldAts == {<<>>, <<"optional">>, <<"`5`">>, <<"string", "`1`", "required">>, <<"number", "optional">>, <<"a", "b">>, <<"a", "`1`", "optional", "b">>}
NewKids == {<<>>, <<Members(<<"1", "2">>)>>, <<DefaultI("1")>>, <<SampleI("2")>>, <<Members(<<"1", "2">>), DefaultI("3")>>, <<DefaultI("1"), SampleI("2")>>, <<P("told"), SampleI("2"), DefaultI("4")>>}
OldKids == {<<>>, <<OldValues(<<"1", "x y">>)>>, <<OldValues(<<>>)>>, <<OldValues(<<"1">>), OldValues(<<"5", "1">>)>>, <<P("told")>>}
New == {ParamI("id", x, at, d, FALSE, ks) : x \in {"", "1"}, at \in NewAts, d \in {"", "about it"}, ks \in NewKids}
Old == {ParamI("id", x, at, d, TRUE, ks) : x \in {"", "1"}, at \in OldAts, d \in {"", "about it"}, ks \in {k \in OldKids : TRUE}}
\* the old notation shows only where something of it is used
Shows(b) == b.s.x # "" \/ b.s.d # "" \/ (\E i \in 1..Len(b.s.at) : CharAt(b.s.at[i], 1) = "`") \/ (\E i \in 1..Len(b.b) : b.b[i].k = "i")
Ps == New \cup {b \in Old : Shows(b)}
Uri(known) == <<Lit("/a")>> \o (IF known THEN <<Ex("?", <<"id">>)>> ELSE <<Ex("", <<"other*", "id2">>)>>)
Tail2 == <<ActH("GET"), Response("200", "", <<>>)>>
Other == ParamI("id2", "", <<>>, "", FALSE, <<>>)
Docs == {<<UriH(Uri(TRUE)), ParamsI(<<p>>)>> \o Tail2 : p \in Ps}
        \cup {<<UriH(Uri(FALSE)), ParamsI(<<Other, p>>)>> \o Tail2 : p \in {b \in Ps : b.s.x = ""}}
        \cup {<<UriH(Uri(k)), ActH("GET"), ParamsI(<<p, q>>), Response("200", "", <<>>)>> : k \in BOOLEAN,
               p \in {b \in Ps : b.b = <<>> /\ Len(b.s.at) < 2}, q \in {Other, ParamI("id", "2", <<"optional">>, "", FALSE, <<>>)}}

ParamsAt(doc) == CHOOSE i \in 1..Len(doc) : doc[i].k = "i" /\ doc[i].s.k = "params"
Vars2(r) == LET es == SelectSeq(Within(r.ast), LAMBDA e : \E i \in 1..Len(e.a) : e.a[i].k = "hrefVariables")
            IN  IF es = <<>> THEN <<>> ELSE (SelectSeq(es[1].a, LAMBDA z : z.k = "hrefVariables"))[1].el.c
Optional(b) == \E i \in 1..Len(b.s.at) : b.s.at[i] = "optional"
TraitsOk(b) == Len(b.s.at) <= (IF b.s.old THEN 3 ELSE 2) /\ Cardinality({i \in 1..Len(b.s.at) : LowerStr(b.s.at[i]) \notin {"required", "optional"} /\ CharAt(b.s.at[i], 1) # "`"}) <= 1
Uses(m) == (SelectSeq(m.a, LAMBDA z : z.k = "typeAttributes"))[1].el.c[1].v
Stated(doc, r) ==
  LET b == doc[ParamsAt(doc)]
      ms == Vars2(r)
      last(n) == b.b[CHOOSE i \in 1..Len(b.b) : b.b[i].s.n = n /\ \A j \in (i + 1)..Len(b.b) : b.b[j].s.n # n]
      names == {b.b[i].s.n : i \in 1..Len(b.b)}
  IN  /\ {ms[i].c[1].v : i \in 1..Len(ms)} = names /\ Len(ms) = Cardinality(names)
      /\ \A i \in 1..Len(ms) : LET p == last(ms[i].c[1].v)
                               IN  /\ Uses(ms[i]) = IF TraitsOk(p) /\ Optional(p) THEN "optional" ELSE "required"
                                   /\ p.s.d # "" => Holds(MetOf(ms[i], "description"), p.s.d)
                                   /\ ~p.s.old /\ p.s.x # "" /\ p.b = <<>> => ms[i].c[2].v = p.s.x
\* a parameter the URI does not have is a logical error at its list or action
Known(doc) == LET us == doc[1].s.u IN UriVars(us)
Strange(doc, r) == (\E i \in 1..Len(doc[ParamsAt(doc)].b) : doc[ParamsAt(doc)].b[i].s.n \notin Known(doc))
                   => \E i \in 1..Len(r.notes) : r.notes[i].code = wLogic
Law(doc, r) == Sound(doc, r) /\ r.rc = 0 /\ Stated(doc, r) /\ Strange(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
Spec == Init /\ [][Next]_vars
=============================================================================

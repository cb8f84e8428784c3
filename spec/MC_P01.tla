------------------------------- MODULE MC_P01 -------------------------------
(* The outline of a blueprint: every short sequence of headers, with and      *)
(* without text below each.                                                   *)
\* CONFIG {}
EXTENDS BlueBase

A == <<Lit("/a")>>
B == <<Lit("/b"), Ex("?", <<"q">>)>>
Heads == {TitleH("Words"), GroupH("G"), GroupH("K"), UriH(A), NamedH("N", A), NamedH("M", B), ActH("GET"), NamedActH("L", "PUT"),
          WholeH("GET", B), FullActH("F", "POST", A), H(2, [k |-> "typo", x |-> "T", m |-> "GET", r |-> "users"])}
Few == Heads \ {GroupH("K"), NamedH("N", A), WholeH("GET", B)}
Spread(hs, text) == Concat([i \in 1..Len(hs) |-> IF text THEN <<hs[i], P("below " \o ToString(i))>> ELSE <<hs[i]>>])
Docs == {Spread(hs, text) : hs \in SeqsUpTo(Heads, IF Deep THEN 4 ELSE 3), text \in BOOLEAN}
        \cup {<<TitleH("Words")>> \o Spread(hs, TRUE) : hs \in SeqsUpTo(IF Deep THEN Heads ELSE Few, 3)}
        \cup {<<[k |-> "p", ls |-> <<"KEY: value", "OTHER: a: b">>]>> \o Spread(hs, TRUE) : hs \in SeqsUpTo(Few, 2)}
        \cup {<<P("text first")>> \o Spread(hs, TRUE) : hs \in SeqsUpTo(Few, 2)}

\* every text below a header is told in a description or reported as ignored
Texts(r) == [i \in 1..Len(NamedEls(r, "copy")) |-> NamedEls(r, "copy")[i].v]
Told(doc, r) == \A i \in 1..Len(doc) : doc[i].k = "p" /\ i > 1 =>
                   \/ \E j \in 1..Len(Texts(r)) : Holds(Texts(r)[j], doc[i].ls[1])
                   \/ Noted(r, wIgnore, Starts2(doc)[i])
\* a resource for every header that can only start one, in their order, once there was a header that is no title
Hrefs(r) == [i \in 1..Len(NamedEls(r, "resource")) |-> AttOf(NamedEls(r, "resource")[i], "href")]
Only(doc) == SelectSeq(doc, LAMBDA b : b.k = "h" /\ b.s.k \in {"uri", "named", "muri"})
InOrder(doc, r) == (\A i \in 1..Len(doc) : doc[i].k # "h" \/ doc[i].s.k # "nmuri")
                   => Hrefs(r) = [i \in 1..Len(Only(doc)) |-> UriText(Only(doc)[i].s.u)]
\* a group for every group header
GroupNames(r) == LET gs == SelectSeq(NamedEls(r, "category"), LAMBDA e : Len(e.m) = 2 /\ e.m[1].el.c[1].v = "resourceGroup")
                 IN  [i \in 1..Len(gs) |-> MetOf(gs[i], "title")]
Grouped(doc, r) == LET gs == SelectSeq(doc, LAMBDA b : b.k = "h" /\ b.s.k = "group") IN GroupNames(r) = [i \in 1..Len(gs) |-> gs[i].s.x]
Law(doc, r) == /\ Sound(doc, r) /\ r.rc = 0
               /\ Told(doc, r) /\ InOrder(doc, r) /\ Grouped(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_R01 -------------------------------
(* Reports over every small arrangement of annotations. *)
\* CONFIG {}
EXTENDS ToolsBase

El(t, v, c) == [t |-> t, n |-> t, m |-> <<>>, a |-> <<>>, s |-> TRUE, v |-> v, c |-> c]
Num(i) == El("number", ToString(i), <<>>)
S(x) == El("string", x, <<>>)
A(c) == El("array", "", c)
Nm(e, n) == [e EXCEPT !.n = n]
Entry(k, e) == <<[k |-> k, el |-> e]>>
SM(rs) == A(<<Nm(A([i \in 1..Len(rs) |-> A(<<Num(rs[i][1]), Num(rs[i][2])>>)]), "sourceMap")>>)
Classes == {<<>>, Entry("classes", A(<<S("error")>>)), Entry("classes", A(<<S("warning")>>)), Entry("classes", A(<<S("x"), S("y")>>)), Entry("classes", A(<<>>)),
            Entry("classes", S("warning")), Entry("class", A(<<S("warning")>>))}
Codes == {<<>>, Entry("code", Num(4)), Entry("code", S("4")), Entry("Code", Num(4))}
Sources == {<<>>} \cup {Entry("sourceMap", SM(rs)) : rs \in {<<>>, <<<<0, 1>>>>, <<<<3, 2>>, <<0, 2>>>>, <<<<2, 4>>, <<2, 4>>, <<0, 6>>>>}}
Names == {"annotation", "annotation", "Annotation", "string"}
Note(n, m, c, s, x) == [Nm(S(x), n) EXCEPT !.m = m, !.a = c \o s]
Notes == {Note("annotation", m, c, s, "text") : m \in Classes, c \in Codes, s \in Sources}
         \cup {Note("annotation", m, <<>>, <<>>, x) : m \in Classes, x \in {"", "a: b"}}
         \cup {[Nm(Num(5), "annotation") EXCEPT !.a = Entry("code", Num(4))]}
One == Note("annotation", Entry("classes", A(<<S("error")>>)), Entry("code", Num(2)), Entry("sourceMap", SM(<<<<0, 2>>>>)), "first")
Two_ == Note("annotation", Entry("classes", A(<<S("warning")>>)), Entry("code", Num(5)), Entry("sourceMap", SM(<<<<3, 3>>, <<1, 1>>>>)), "second")
Other == Note("string", Entry("classes", A(<<S("warning")>>)), Entry("code", Num(5)), <<>>, "no annotation")
Deeper == Nm(A(<<One>>), "category")
Holder == Nm(A(<<One>>), "annotation")
Results == {<<>>} \cup {<<x>> : x \in Notes} \cup SeqsUpTo({One, Two_, Other, Deeper, Holder}, IF Deep THEN 4 ELSE 3)
Document == <<97, 10, 195, 169, 98, 10, 99>>
SA(m, c, l) == [message |-> m, code |-> c, location |-> l]
SAs == {SA(m, c, l) : m \in {"", "text"}, c \in {0, 2, 13}, l \in {<<>>, <<<<0, 1>>>>, <<<<3, 2>>, <<0, 2>>>>}}
Init == st = InitTools /\ part \in Parts
Next ==
  \/ \E c \in Results, l \in BOOLEAN : Mine(Len(c)) /\ \E e \in {0, 2} :
       Do([op |-> "report", el |-> Nm(A(c), "parseResult"), doc |-> Document, lines |-> l, error |-> e])
  \/ part = 1 /\ \E e \in SAs, l \in BOOLEAN : \E w \in {<<>>} \cup {<<x>> : x \in SAs} \cup {<<SA("v", 3, <<>>), SA("w", 1, <<<<1, 1>>>>)>>} :
       Do([op |-> "treport", r |-> [error |-> e, warnings |-> w], doc |-> Document, lines |-> l])
Spec == Init /\ [][Next]_vars
=============================================================================

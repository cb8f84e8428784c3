------------------------------- MODULE MC_S03 -------------------------------
(* Line and column of every range of every document of a few characters. *)
\* CONFIG {}
EXTENDS ToolsBase

Characters == {Ascii, Newline, Two, Four}
Documents == Docs(Characters, IF Deep THEN 6 ELSE 4) \cup Docs({Ascii, Newline}, IF Deep THEN 8 ELSE 6)
Count(ps, from, to, c) == Cardinality({i \in from..to : ps[i] = c})
\* the line is one more than the newlines in front of the character, the column one more than the characters since the last of them
Place(ps, c) == LET last == CHOOSE i \in 0..c : (i = 0 \/ ps[i] = 10) /\ Count(ps, i + 1, c, 10) = 0
                IN  <<1 + Count(ps, 1, c, 10), c - last + 1>>
Law(doc, i, n) ==
  LET ps == Points(doc)
      p == Position(LineIndex(doc), <<i, n>>)
      e == i + n - 1
      tail == Count(ps, e + 1, Len(ps), 10) = 0
  IN  /\ <<p[1], p[2]>> = Place(ps, i)
      /\ <<p[3], p[4]>> = IF tail THEN <<1 + Count(ps, 1, Len(ps), 10), 1>> ELSE Place(ps, e)
Init == st = InitTools /\ part \in Parts
Next ==
  \E doc \in {d \in Documents : Mine(Len(d))} :
    \/ Do([op |-> "lines", doc |-> doc])
    \/ \E i \in 0..(Len(Points(doc)) - 1) : \E n \in 1..(Len(Points(doc)) - i) :
         /\ Assert(Law(doc, i, n), "Law")
         /\ Do([op |-> "pos", doc |-> doc, loc |-> i, len |-> n])
    \/ \E i \in 0..(Len(doc) + 1) : Do([op |-> "anypos", doc |-> doc, loc |-> i, len |-> 0])
Spec == Init /\ [][Next]_vars
=============================================================================

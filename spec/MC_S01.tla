------------------------------- MODULE MC_S01 -------------------------------
(* Every document of a few characters, and every range of whole characters in it and past it; every range in documents that are not well-formed. *)
\* CONFIG {}
EXTENDS ToolsBase

Characters == {Ascii, Newline, Two, Three, Four}
Documents == Docs(Characters, IF Deep THEN 5 ELSE 4)
Bounds(doc) == {i \in 0..(Len(doc) + 2) : Boundary(doc, i)}
All(doc) == SetToSeq({<<i, j - i>> : <<i, j>> \in {p \in Bounds(doc) \X Bounds(doc) : p[1] <= p[2]}})
Wild == SeqsUpTo({97, 169, 195, 226, 240}, IF Deep THEN 4 ELSE 3)
Everything(doc) == SetToSeq({<<i, n>> : i \in 0..(Len(doc) + 2), n \in {-1, 0, 1, 2, Len(doc), Len(doc) + 3}} \cup {<<-1, 0>>, <<-1, 2>>, <<-3, 3>>, <<-2, -2>>})
\* the characters in front of, in and behind a range are those of the document
Law(doc) == \A i \in 1..Len(All(doc)) :
  LET r == All(doc)[i]
      c == ToChars(doc, r)
      from == Min2(r[1], Len(doc))
      to == Min2(r[1] + r[2], Len(doc))
  IN  /\ c[1] = Len(Points(SubSeq(doc, 1, from)))
      /\ c[2] = Len(Points(SubSeq(doc, from + 1, to)))
Init == st = InitTools /\ part \in Parts
Next ==
  \/ \E doc \in {d \in Documents : Mine(Len(d))} :
       /\ Assert(WellFormed(doc) /\ Law(doc), "Law")
       /\ \/ Do([op |-> "chars", doc |-> doc, rs |-> All(doc) \o <<<<0, -1>>, <<-1, 1>>, <<-1, 2>>, <<-2, -2>>>>])
          \/ \E n \in {0, 30} : Do([op |-> "index", doc |-> doc, n |-> n])
  \/ \E doc \in {d \in Wild : Mine(Len(d))} : Do([op |-> "anychars", doc |-> doc, rs |-> Everything(doc)])
Spec == Init /\ [][Next]_vars
=============================================================================

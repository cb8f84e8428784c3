------------------------------- MODULE MC_P08 -------------------------------
(* Signatures: every short line with every choice of expected parts, and      *)
(* every signature written from its parts.                                    *)
\* CONFIG {}
EXTENDS GrammarBase

Marks8 == {Oct("a"), Oct(" "), Oct(","), Oct("("), Oct(")"), Oct("`"), Oct("*"), Oct(":"), Oct("-"), Oct("[")}
Few == {Oct("a"), Oct(","), Oct("("), Oct("`"), Oct(":"), Oct("-")}
Ending == {Oct("a"), Oct(" "), Oct(","), Oct("("), Oct(")"), Oct("`"), Oct("["), Oct("-")}
All4 == {<<a, b, c, d>> : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN}
Used == {<<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE, FALSE>>}
Sg(x, tr) == [op |-> "sign", x |-> x, tr |-> tr, mark |-> Oct(":"), before |-> Oct("-")]
Depth == IF Deep THEN 5 ELSE 4
Lines8 == Texts(Marks8, Depth)
Short == Texts(Few, IF Deep THEN 5 ELSE 3)
Behinds == Texts(Ending, IF Deep THEN 5 ELSE 4)
Other == Texts({Oct("a"), Oct("="), Oct("..."), Oct("("), Oct(" "), Oct(":"), Oct(".")}, Depth)
All1 == <<TRUE, TRUE, TRUE, TRUE>>
\* signatures from their parts
Ids == {<<>>, Oct("a"), Oct("a b"), Oct("`x: -(`"), Oct("**b**")}
Vals1 == {Oct("v"), Oct("1.5"), Oct("`a,b`") , Oct("w x")}
AttrsOf == {Oct("required"), Oct("array[a, (b)]"), Oct("`x,y`")}
ContentsOf == {<<>>, Oct("text - (more), `x")}
Commas(vs) == Cat([i \in 1..Len(vs) |-> IF i = 1 THEN vs[i] ELSE Oct(", ") \o vs[i]])
WrittenSign(w) == w.id \o (IF w.vs = <<>> THEN <<>> ELSE IF w.id = <<>> THEN Commas(w.vs) ELSE Oct(": ") \o Commas(w.vs)) \o (IF w.as = <<>> THEN <<>> ELSE Oct(" (") \o Commas(w.as) \o Oct(")"))
                  \o (IF w.text = <<>> THEN <<>> ELSE Oct(" - ") \o w.text)
Whole == {[id |-> i, vs |-> vs, as |-> as, text |-> t] : i \in Ids \ {<<>>}, vs \in SeqsUpTo(Vals1, IF Deep THEN 3 ELSE 2), as \in SeqsUpTo(AttrsOf, IF Deep THEN 3 ELSE 2), t \in ContentsOf}
Law(o, r) ==
  /\ Len(r.identifier) > 0 => o.tr[1]
  /\ (r.values # <<>> \/ Len(r.value) > 0) => o.tr[2]
  /\ r.attributes # <<>> => o.tr[3]
  /\ Len(r.content) > 0 => o.tr[4]
  /\ \A x \in {r.identifier, r.content} : S!Stripped(x) = x
  /\ \A i \in 1..Len(r.attributes) : S!Stripped(r.attributes[i]) = r.attributes[i] /\ Len(r.attributes[i]) > 0
  \* blanks around the line do not count
  /\ LET p == S!SignatureOf(Oct(" ") \o SubSeq(o.x, 1, Line(o.x)) \o Oct("\t"), Traits(o)) IN \A k \in DOMAIN p : p[k] = r[k]
Ticked(v) == IF Len(v) > 1 /\ v[1] = 96 THEN SubSeq(v, 2, Len(v) - 1) ELSE v
WrittenLaw(o, r) ==
  /\ Law(o, r)
  /\ r.identifier = o.w.id
  /\ Len(r.values) = Len(o.w.vs) /\ \A i \in 1..Len(r.values) : Ticked(r.values[i]) = Ticked(o.w.vs[i])
  /\ r.attributes = o.w.as /\ r.content = o.w.text /\ r.warnings = 0
Init == part \in Parts
Next == \/ \E x \in Share(Lines8), tr \in Used : Judge(Sg(x, tr), Law)
        \/ \E x \in Share(Short), tr \in All4 : Judge(Sg(x, tr), Law)
        \/ \E x \in Share(Behinds), b \in {Oct("a: "), Oct("a (")} : Judge(Sg(b \o x, All1), Law)
        \/ \E x \in Share(Other) : Judge([Sg(x, All1) EXCEPT !.mark = Oct("="), !.before = Oct("...")], Law)
        \/ \E x \in Share(Texts(Few, 2)), y \in Texts({Oct("a"), <<10>>, Oct(" "), Oct("-")}, 2) : Judge(Sg(x \o <<10>> \o y, All1), Law)
        \/ \E w \in Share(Whole) : Judge(Sg(WrittenSign(w), <<TRUE, TRUE, TRUE, TRUE>>) @@ [w |-> w], WrittenLaw)
Spec == Init /\ [][Next]_part
=============================================================================

------------------------------ MODULE Signature -----------------------------
(* How the one line of a header or list item is taken apart: an identifier,   *)
(* values, attributes in brackets and a description, each of which may be     *)
(* expected or not.  Text is a sequence of units: octets, or a string of      *)
(* characters; U has the unit for every character that matters.               *)
EXTENDS Naturals, Sequences, TLC

CONSTANT U

UnitAt(s, i) == SubSeq(s, i, i)
Behind(s, i) == TLCEval(SubSeq(s, i, Len(s)))
With(x, y) == TLCEval(x \o y)
NoUnits(s) == SubSeq(s, 1, 0)
Spaces == {U.sp, U.tab, U.nl, U.cr, U.ff}
Stripped(s) ==
  LET B == {i \in 1..Len(s) : UnitAt(s, i) \notin Spaces}
  IN  IF B = {} THEN NoUnits(s) ELSE SubSeq(s, CHOOSE i \in B : \A j \in B : i <= j, CHOOSE i \in B : \A j \in B : i >= j)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* what is escaped from position b on: a run of one unit, up to the next such run; 0 if it does not end
RECURSIVE RunOf(_, _, _)
RunOf(s, b, u) == IF b <= Len(s) /\ UnitAt(s, b) = u THEN 1 + RunOf(s, b + 1, u) ELSE 0
EscapeEnd(s, b) ==
  LET n == RunOf(s, b, UnitAt(s, b))
      E == {i \in (b + n)..(Len(s) - n + 1) : SubSeq(s, i, i + n - 1) = SubSeq(s, b, b + n - 1)}
  IN  IF E = {} THEN 0 ELSE (CHOOSE i \in E : \A j \in E : i <= j) + n - 1
Unticked(s) ==
  IF Len(s) = 0 \/ UnitAt(s, 1) # U.tick \/ UnitAt(s, Len(s)) # U.tick THEN s
  ELSE LET e == EscapeEnd(s, 1)
           n == RunOf(s, 1, U.tick)
       IN  IF e = 0 \/ e - n < n + 1 THEN s ELSE Stripped(SubSeq(s, n + 1, e - n))

\* tr: which parts are expected, and what stands before values and description
Stops(s, tr) == \/ tr.attributes /\ UnitAt(s, 1) = U.open
                \/ tr.content /\ StartsWith(s, tr.before)

\* <<identifier, rest>>
RECURSIVE Ident(_, _, _)
Ident(s, tr, acc) ==
  IF Len(s) = 0 THEN <<acc, s>>
  ELSE IF UnitAt(s, 1) \in {U.star, U.under, U.tick}
  THEN LET e == EscapeEnd(s, 1) IN IF e > 0 THEN Ident(Behind(s, e + 1), tr, With(acc, SubSeq(s, 1, e))) ELSE Ident(Behind(s, 2), tr, With(acc, UnitAt(s, 1)))
  ELSE IF Stops(s, tr) \/ (tr.values /\ UnitAt(s, 1) = tr.mark) THEN <<acc, s>>
  ELSE Ident(Behind(s, 2), tr, With(acc, UnitAt(s, 1)))

\* <<values, rest>>
RECURSIVE Vals(_, _, _, _)
Vals(s, tr, val, acc) ==
  LET last == IF Len(Stripped(val)) = 0 THEN acc ELSE Append(acc, Stripped(val))
  IN  IF Len(s) = 0 THEN <<last, s>>
      ELSE IF UnitAt(s, 1) = U.tick
      THEN LET e == EscapeEnd(s, 1) IN IF e > 0 THEN Vals(Behind(s, e + 1), tr, With(val, SubSeq(s, 1, e)), acc) ELSE Vals(Behind(s, 2), tr, With(val, UnitAt(s, 1)), acc)
      ELSE IF UnitAt(s, 1) = U.comma THEN Vals(TLCEval(Stripped(Behind(s, 2))), tr, NoUnits(s), TLCEval(Append(acc, Unticked(Stripped(val)))))
      ELSE IF Stops(s, tr) THEN <<last, s>>
      ELSE Vals(Behind(s, 2), tr, With(val, UnitAt(s, 1)), acc)

\* <<what is in the bracket, rest>>; an outermost bracket (comma) ends at a comma, too.  base: what is left of the text
\* if an outermost bracket does not end
RECURSIVE Bracket(_, _, _, _, _)
Bracket(s, end, comma, acc, base) ==
  IF Len(s) = 0 THEN <<acc, IF comma THEN base ELSE s>>
  ELSE IF UnitAt(s, 1) = U.tick
  THEN LET e == EscapeEnd(s, 1)
       IN  IF e > 0 THEN Bracket(Behind(s, e + 1), end, comma, With(acc, SubSeq(s, 1, e)), Behind(s, e + 1)) ELSE Bracket(Behind(s, 2), end, comma, With(acc, UnitAt(s, 1)), base)
  ELSE IF UnitAt(s, 1) \in {U.bopen, U.open}
  THEN LET b == TLCEval(Bracket(Behind(s, 2), IF UnitAt(s, 1) = U.bopen THEN U.bclose ELSE U.close, FALSE, UnitAt(s, 1), NoUnits(s))) IN Bracket(b[2], end, comma, With(acc, b[1]), b[2])
  ELSE IF UnitAt(s, 1) = end THEN <<IF comma THEN acc ELSE With(acc, UnitAt(s, 1)), Behind(s, 2)>>
  ELSE IF comma /\ UnitAt(s, 1) = U.comma THEN <<With(acc, UnitAt(s, 1)), Behind(s, 2)>>
  ELSE Bracket(Behind(s, 2), end, comma, With(acc, UnitAt(s, 1)), base)
\* <<attributes, rest>>; s begins behind the bracket
RECURSIVE Attribs(_, _, _)
Attribs(s, base, acc) ==
  LET b == TLCEval(Bracket(s, U.close, TRUE, NoUnits(s), base))
      more == Len(b[1]) > 0 /\ UnitAt(b[1], Len(b[1])) = U.comma
      a == Stripped(IF more THEN SubSeq(b[1], 1, Len(b[1]) - 1) ELSE b[1])
      out == IF Len(a) = 0 THEN acc ELSE Append(acc, a)
  IN  IF more THEN Attribs(b[2], U.open \o b[2], out) ELSE <<out, Stripped(b[2])>>

\* the parts of one line; warnings: how many parts that were begun are empty
SignatureOf(line, tr) ==
  LET s0 == TLCEval(Stripped(line))
      none == NoUnits(line)
      r1 == TLCEval(IF tr.identifier /\ Len(s0) > 0 THEN Ident(s0, tr, none) ELSE <<none, s0>>)
      id == Stripped(r1[1])
      s1 == TLCEval(Stripped(r1[2]))
      w1 == IF tr.identifier /\ Len(s0) > 0 /\ Len(id) = 0 THEN 1 ELSE 0
      begun == tr.values /\ Len(s1) > 0 /\ UnitAt(s1, 1) # U.open /\ (~tr.identifier \/ UnitAt(s1, 1) = tr.mark)
      all == Stripped(IF tr.identifier THEN Behind(s1, 2) ELSE s1)
      r2 == TLCEval(IF begun THEN Vals(all, tr, none, <<>>) ELSE <<<<>>, s1>>)
      s2 == TLCEval(Stripped(r2[2]))
      w2 == IF begun /\ r2[1] = <<>> THEN 1 ELSE 0
      value == IF begun THEN Unticked(Stripped(SubSeq(all, 1, Len(all) - Len(s2)))) ELSE none
      r3 == IF tr.attributes /\ Len(s2) > 0 /\ ~StartsWith(s2, tr.before) /\ UnitAt(s2, 1) = U.open THEN TLCEval(Attribs(Behind(s2, 2), s2, <<>>)) ELSE <<<<>>, s2>>
      s3 == r3[2]
      text == IF tr.content /\ Len(s3) > 0 /\ StartsWith(s3, tr.before) THEN Stripped(Behind(s3, Len(tr.before) + 1)) ELSE none
  IN  [identifier |-> id, value |-> value, values |-> r2[1], attributes |-> r3[1], content |-> text, warnings |-> w1 + w2]
=============================================================================

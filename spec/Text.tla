-------------------------------- MODULE Text --------------------------------
(* What drafter knows about text: octets and characters, UTF-8, byte and      *)
(* character ranges, lines and columns, media types, extended regular         *)
(* expressions.  A document is a sequence of octets (0..255).                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ---------------------------------------------------------------- utf-8
FFFD == 65533
IsCont(b) == b \in 128..191
Nominal(b) == CASE b < 128 -> 1 [] b < 192 -> 1 [] b < 224 -> 2 [] b < 240 -> 3 [] b < 248 -> 4 [] OTHER -> 1
Lead(b) == CASE b < 128 -> b [] b < 224 -> b % 32 [] b < 240 -> b % 16 [] OTHER -> b % 8
RECURSIVE Gather(_, _, _, _)
Gather(doc, i, n, acc) == IF n = 0 THEN acc ELSE Gather(doc, i + 1, n - 1, acc * 64 + (doc[i] % 64))
Least(n) == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] OTHER -> 65536
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343

\* the code point at position i of the document, and the octets it takes
DecodeOne(doc, i) ==
  LET b    == doc[i]
      n    == Nominal(b)
      left == Len(doc) - i + 1
  IN  CASE b < 128 -> <<b, 1>>
        [] b \in 128..191 \cup 248..255 -> <<FFFD, 1>>
        [] b \in 192..247 /\ left < n -> <<FFFD, left>>
        [] OTHER ->
             LET c == Gather(doc, i + 1, n - 1, Lead(b))
             IN  IF (\A j \in 1..(n - 1) : IsCont(doc[i + j])) /\ c >= Least(n) /\ Scalar(c) THEN <<c, n>> ELSE <<FFFD, n>>
RECURSIVE DecodeFrom(_, _)
DecodeFrom(doc, i) == IF i > Len(doc) THEN <<>>
                      ELSE LET r == DecodeOne(doc, i) IN <<r>> \o DecodeFrom(doc, i + r[2])
Decode(doc) == DecodeFrom(doc, 1)
Points(doc) == LET d == Decode(doc) IN [i \in 1..Len(d) |-> d[i][1]]
Encode(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* well-formed documents are those that some sequence of code points encodes
RECURSIVE EncodeAll(_)
EncodeAll(cs) == IF cs = <<>> THEN <<>> ELSE Encode(Head(cs)) \o EncodeAll(Tail(cs))
WellFormed(doc) == FFFD \notin {Points(doc)[i] : i \in 1..Len(Points(doc))} /\ EncodeAll(Points(doc)) = doc

\* --------------------------------------------------------- ranges of bytes
\* ranges are <<location, length>>, counted from 0; a negative number -n stands for the one n below 2^64, far behind any document
Min2(a, b) == IF a < b THEN a ELSE b
\* characters that begin in the first n octets of a well-formed document
CharsBefore(doc, n) == Cardinality({i \in 1..Min2(n, Len(doc)) : ~IsCont(doc[i])})
Boundary(doc, n) == n >= Len(doc) \/ ~IsCont(doc[n + 1])
ToChars(doc, r) ==
  LET from == IF r[1] < 0 THEN Len(doc) ELSE Min2(r[1], Len(doc))
      to   == IF r[1] < 0 \/ r[2] < 0 THEN Len(doc) ELSE Min2(r[1] + r[2], Len(doc))
  IN  <<CharsBefore(doc, from), CharsBefore(doc, to) - CharsBefore(doc, from)>>
\* for each octet the ordinal of its character
CharIndex(doc) == [i \in 1..Len(doc) |-> CharsBefore(doc, i) - 1]

AppendRanges(a, b) ==
  IF b = <<>> THEN a
  ELSE IF a = <<>> THEN b
  ELSE LET l == a[Len(a)]
       IN  IF l[1] + l[2] # b[1][1] THEN a \o b
           ELSE [a EXCEPT ![Len(a)] = <<l[1], l[2] + b[1][2]>>] \o Tail(b)
\* the octets a set of ranges describes, where the parser may have added one newline to the document
RECURSIVE MapFrom(_, _, _)
MapFrom(rs, doc, acc) ==
  IF rs = <<>> THEN acc
  ELSE LET e == rs[1][1] + rs[1][2]
       IN  IF rs[1][1] < 0 \/ rs[1][2] < 0 \/ e > Len(doc) + 1 THEN <<>>
           ELSE IF e = Len(doc) + 1 THEN acc \o SubSeq(doc, rs[1][1] + 1, Len(doc))
           ELSE MapFrom(Tail(rs), doc, acc \o SubSeq(doc, rs[1][1] + 1, e))
MapRanges(rs, doc) == IF doc = <<>> THEN <<>> ELSE MapFrom(rs, doc, <<>>)

\* -------------------------------------------------------- lines and columns
RECURSIVE Newlines(_, _)
Newlines(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF ps[i] = 10 THEN <<i>> ELSE <<>>) \o Newlines(ps, i + 1)
LineIndex(doc) == <<0>> \o Newlines(Points(doc), 1)
LineOf(ix, c) == Cardinality({i \in 1..Len(ix) : ix[i] <= c})                  \* of the character c, from 0
ColumnOf(ix, c) == c - ix[LineOf(ix, c)] + 1
\* first and last character of a range that is not empty
Position(ix, r) ==
  LET e == r[1] + r[2]
  IN  <<LineOf(ix, r[1]), ColumnOf(ix, r[1])>>
      \o (IF e > ix[Len(ix)] THEN <<Len(ix), 1>> ELSE <<LineOf(ix, e - 1), ColumnOf(ix, e - 1)>>)

\* -------------------------------------------------------------- media types
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
Application == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110>>
Json_ == <<106, 115, 111, 110>>
Schema_ == <<115, 99, 104, 101, 109, 97>>
IsJson(m) == LowerAll(m.type) = Application /\ LowerAll(IF m.suffix = <<>> THEN m.subtype ELSE m.suffix) = Json_
IsJsonSchema(m) == LowerAll(m.type) = Application /\ LowerAll(m.subtype) = Schema_ /\ LowerAll(m.suffix) = Json_
Special == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125} \cup 0..32 \cup 127..255
Bare(v) == v # <<>> /\ \A i \in 1..Len(v) : v[i] \notin Special
RECURSIVE Escaped(_)
Escaped(v) == IF v = <<>> THEN <<>>
              ELSE (CASE v[1] \in {92, 34} -> <<92, v[1]>> [] v[1] = 13 -> <<92, 114>> [] OTHER -> <<v[1]>>) \o Escaped(Tail(v))
WriteValue(v) == IF Bare(v) THEN v ELSE <<34>> \o Escaped(v) \o <<34>>
RECURSIVE WriteParams(_)
WriteParams(ps) == IF ps = <<>> THEN <<>>
                   ELSE (IF ps[1][1] = <<>> THEN <<>> ELSE <<59, 32>> \o ps[1][1] \o <<61>> \o WriteValue(ps[1][2])) \o WriteParams(Tail(ps))
WriteMedia(m) == IF m.type = <<>> \/ m.subtype = <<>> THEN <<>>
                 ELSE m.type \o <<47>> \o m.subtype \o (IF m.suffix = <<>> THEN <<>> ELSE <<43>> \o m.suffix) \o WriteParams(m.params)
\* reading back
RECURSIVE Unescape(_)
Unescape(v) == IF v = <<>> THEN <<>>
               ELSE IF v[1] = 92 THEN <<IF v[2] = 114 THEN 13 ELSE v[2]>> \o Unescape(SubSeq(v, 3, Len(v)))
               ELSE <<v[1]>> \o Unescape(Tail(v))
ReadValue(w) == IF w # <<>> /\ w[1] = 34 THEN Unescape(SubSeq(w, 2, Len(w) - 1)) ELSE w

\* ------------------------------------------- POSIX extended regular expressions
\* [k: "ch"|"any"|"set"|"not"|"bol"|"eol"|"cat"|"alt"|"rep"|"grp", ...]; targets are strings
RECURSIVE Render(_), RenderAll(_), RenderAlt(_)
Join(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
RenderAll(xs) == IF xs = <<>> THEN "" ELSE Render(xs[1]) \o RenderAll(Tail(xs))
RenderAlt(xs) == IF Len(xs) = 1 THEN Render(xs[1]) ELSE Render(xs[1]) \o "|" \o RenderAlt(Tail(xs))
Render(x) ==
  CASE x.k = "ch"  -> x.c
    [] x.k = "any" -> "."
    [] x.k = "set" -> "[" \o x.c \o "]"
    [] x.k = "not" -> "[^" \o x.c \o "]"
    [] x.k = "bol" -> "^"
    [] x.k = "eol" -> "$"
    [] x.k = "cat" -> RenderAll(x.xs)
    [] x.k = "alt" -> RenderAlt(x.xs)
    [] x.k = "rep" -> Render(x.x) \o x.c
    [] x.k = "grp" -> "(" \o Render(x.x) \o ")"
CharAt(t, i) == SubSeq(t, i, i)
OneOf(s, c) == \E i \in 1..Len(s) : CharAt(s, i) = c
\* all ways to match x at position i: set of <<next position, assignment of groups>>; a group is <<number, from, to>>
RECURSIVE Ways(_, _, _), WaysCat(_, _, _), WaysRep(_, _, _, _, _)
Ways(x, t, i) ==
  CASE x.k = "ch"  -> IF i <= Len(t) /\ CharAt(t, i) = x.c THEN {<<i + 1, {}>>} ELSE {}
    [] x.k = "any" -> IF i <= Len(t) THEN {<<i + 1, {}>>} ELSE {}
    [] x.k = "set" -> IF i <= Len(t) /\ OneOf(x.c, CharAt(t, i)) THEN {<<i + 1, {}>>} ELSE {}
    [] x.k = "not" -> IF i <= Len(t) /\ ~OneOf(x.c, CharAt(t, i)) THEN {<<i + 1, {}>>} ELSE {}
    [] x.k = "bol" -> IF i = 1 THEN {<<i, {}>>} ELSE {}
    [] x.k = "eol" -> IF i = Len(t) + 1 THEN {<<i, {}>>} ELSE {}
    [] x.k = "cat" -> WaysCat(x.xs, t, i)
    [] x.k = "alt" -> UNION {Ways(x.xs[j], t, i) : j \in 1..Len(x.xs)}
    [] x.k = "grp" -> {<<w[1], {g \in w[2] : g[1] # x.n} \cup {<<x.n, i, w[1]>>}>> : w \in Ways(x.x, t, i)}
    [] x.k = "rep" -> WaysRep(x.x, t, i, IF x.c = "+" THEN 1 ELSE 0, IF x.c = "?" THEN 1 ELSE Len(t) + 1)
WaysCat(xs, t, i) ==
  IF xs = <<>> THEN {<<i, {}>>}
  ELSE UNION {{<<v[1], w[2] \cup v[2]>> : v \in WaysCat(Tail(xs), t, w[1])} : w \in Ways(xs[1], t, i)}
WaysRep(x, t, i, lo, hi) ==
  (IF lo = 0 THEN {<<i, {}>>} ELSE {})
  \cup (IF hi = 0 THEN {}
        ELSE UNION {{<<v[1], {g \in w[2] : \A h \in v[2] : h[1] # g[1]} \cup v[2]>> : v \in WaysRep(x, t, w[1], 0, hi - 1)}
                    : w \in {y \in Ways(x, t, i) : y[1] > i \/ lo > 0}})
\* the leftmost, longest match: <<from, to, assignments>> or <<>>
Match(x, t) ==
  LET at == {i \in 1..(Len(t) + 1) : Ways(x, t, i) # {}}
  IN  IF at = {} THEN <<>>
      ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
               ws == Ways(x, t, i)
               e == CHOOSE e \in {w[1] : w \in ws} : \A w \in ws : w[1] <= e
           IN  <<i, e, {w[2] : w \in {w \in ws : w[1] = e}}>>
\* is every group determined by the match?
Determined(x, t) == t = "" \/ Match(x, t) = <<>> \/ Cardinality(Match(x, t)[3]) = 1
GroupText(t, gs, n) == LET S == {g \in gs : g[1] = n} IN IF S = {} THEN "" ELSE LET g == CHOOSE g \in S : TRUE IN SubSeq(t, g[2], g[3] - 1)
Groups(x, t, n) ==
  LET m == Match(x, t)
  IN  [j \in 1..n |-> IF j = 1 THEN SubSeq(t, m[1], m[2] - 1) ELSE GroupText(t, CHOOSE gs \in m[3] : TRUE, j - 1)]
=============================================================================

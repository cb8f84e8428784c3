------------------------------ MODULE BlueBase ------------------------------
(* Frame of the exhaustive models of Blue.                                    *)
EXTENDS Blue

CONSTANT Deep

VARIABLE part               \* only spreads the work over TLC's workers
vars == part

Parts == 1..8
Mine(n) == (n % 8) + 1 = part
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
Share(A) == LET s == SetToSeq(A) IN {s[i] : i \in {j \in 1..Len(s) : Mine(j)}}

Do(o, r) == PrintT("STEP " \o ToJson([o |-> o, r |-> r])) /\ part' = part
NoOpts == [name |-> FALSE, bodies |-> FALSE, schemas |-> FALSE, maps |-> FALSE]
WithMaps == [NoOpts EXCEPT !.maps = TRUE]
\* the document is read, and what is made of it satisfies the law
Judge(doc, opts, Law(_, _)) ==
  LET o == [op |-> "parse", doc |-> doc, text |-> DocText(doc), opts |-> opts]
      r == TLCEval(ApplyBlue(o))
  IN  Assert(Law(doc, r), "the law does not hold for " \o ToJson(<<o.text, r>>)) /\ Do(o, r)

(* -------------------------------------------------------------- blocks *)
H(lv, s) == [k |-> "h", lv |-> lv, s |-> s]
P(x) == [k |-> "p", ls |-> <<x>>]
C(ls) == [k |-> "c", ls |-> ls, f |-> FALSE]
F(ls) == [k |-> "c", ls |-> ls, f |-> TRUE]
I(s, b) == [k |-> "i", s |-> s, ls |-> <<>>, b |-> b, g |-> FALSE]
ILs(s, ls) == [k |-> "i", s |-> s, ls |-> ls, b |-> <<>>, g |-> FALSE]
Lit(x) == [k |-> "l", x |-> x]
Ex(op, vs) == [k |-> "e", op |-> op, vs |-> vs]
TitleH(x) == H(1, [k |-> "text", x |-> x])
GroupH(x) == H(1, [k |-> "group", x |-> x])
UriH(u) == H(2, [k |-> "uri", u |-> u])
NamedH(x, u) == H(2, [k |-> "named", x |-> x, u |-> u])
ActH(m) == H(3, [k |-> "m", m |-> m])
NamedActH(x, m) == H(3, [k |-> "nm", x |-> x, m |-> m])
FullActH(x, m, u) == H(3, [k |-> "nmuri", x |-> x, m |-> m, u |-> u])
WholeH(m, u) == H(2, [k |-> "muri", m |-> m, u |-> u])
Request(n, t, b) == I([k |-> "request", n |-> n, t |-> t, j |-> ""], b)
Response(n, t, b) == I([k |-> "response", n |-> n, t |-> t, j |-> ""], b)
Model(n, t, b) == I([k |-> "model", n |-> n, t |-> t], b)
BodyI(b) == I([k |-> "body"], b)
SchemaI(b) == I([k |-> "schema"], b)
HeadersI(b) == I([k |-> "headers"], b)
ParamsI(b) == I([k |-> "params"], b)
ParamI(n, x, at, d, old, b) == I([k |-> "param", n |-> n, x |-> x, at |-> at, d |-> d, old |-> old], b)

(* ------------------------------------------------------------- results *)
RECURSIVE Within(_)
\* an element and all inside its content
Within(e) == <<e>> \o Concat([i \in 1..Len(e.c) |-> Within(e.c[i])])
NamedEls(r, n) == IF r.cats = 0 THEN <<>> ELSE SelectSeq(Within(r.ast), LAMBDA e : e.n = n)
AttOf(e, k) == LET y == SelectSeq(e.a, LAMBDA z : z.k = k) IN IF y = <<>> THEN "" ELSE y[1].el.v
MetOf(e, k) == LET y == SelectSeq(e.m, LAMBDA z : z.k = k) IN IF y = <<>> THEN "" ELSE y[1].el.v
Holds(t, x) == \E i \in 1..Len(t) : i + Len(x) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(x) - 1) = x
Noted(r, code, n) == \E i \in 1..Len(r.notes) : r.notes[i].code = code /\ r.notes[i].line = n /\ r.notes[i].cls = "warning"
Starts2(doc) == [i \in 1..Len(doc) |-> FoldLeft(LAMBDA acc, j : acc + Len(BlockLines(doc[j])) + 1, 1, [j \in 1..(i - 1) |-> j])]
\* the result and the error agree, and every note is about a line of the document
SoundFrom(first(_), doc, r) ==
  LET errors == SelectSeq(r.notes, LAMBDA n : n.cls = "error")
      lines == Len(BlocksLines(doc, FALSE))
  IN  /\ (r.rc = 0) = (errors = <<>>) /\ (r.rc = 0) = (r.cats = 1) /\ Len(errors) <= 1
      /\ errors # <<>> => errors[1].code = r.rc
      /\ \A i \in 1..Len(r.notes) : r.notes[i].line \in first(r.notes[i])..lines
Sound(doc, r) == SoundFrom(LAMBDA n : 1, doc, r)
=============================================================================

----------------------------- MODULE ValuesBase -----------------------------
(* Frame of the exhaustive models of Values.                                  *)
EXTENDS Values

CONSTANT Deep

VARIABLES vals, part        \* part: only spreads the work over TLC's workers
vars == <<vals, part>>

Do(o) == LET r == Apply(o, vals)
         IN  /\ PrintT("STEP " \o ToJson([o |-> o, vals |-> vals, r |-> r]))
             /\ vals' = r.vals
             /\ part' = part
\* an operation on a literal, with the law it has to satisfy
Judge(o, law) == Assert(law, <<"the law does not hold for", o>>) /\ Do(o)

Parts == 1..8
Mine(n) == (n % 8) + 1 = part
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
\* a set as a sequence, of which each part does its share
Share(A) == LET s == SetToSeq(A) IN {s[i] : i \in {j \in 1..Len(s) : Mine(j)}}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* elements
N1 == MkV("number", "1")
S(x) == Str(x)
Obj(c) == MkC("object", c)
Arr(c) == MkC("array", c)
Mem(k, x) == Member(k, x)
WithM(e, k, x) == [e EXCEPT !.m = InfoSet(e.m, k, x)]
WithA(e, k, x) == [e EXCEPT !.a = InfoSet(e.a, k, x)]
TA(e, xs) == IF xs = {} THEN e ELSE WithA(e, "typeAttributes", Arr([i \in 1..Cardinality(xs) |-> S(SetToSeq(xs)[i])]))
Ref(x, e) == WithA(MkV("ref", x), "resolved", e)
=============================================================================

------------------------------- MODULE MC_J04 -------------------------------
(* The example body of every small data structure.                            *)
\* CONFIG {}
EXTENDS Structures

RECURSIVE Vals(_)
Vals(x) == {x} \cup UNION {Vals(x.c[i]) : i \in 1..Len(x.c)}
KeysUnique(x) == \A y \in Vals(x) : Cardinality(Lits(y.ks)) = Len(y.ks)

\* the kind of a body: the declared one, unless null stands in
KindOf == [t \in {"string", "number", "boolean", "array", "object"} |-> t]
Kinded(e, x) == e.t \in DOMAIN KindOf =>
                  \/ JsonType(x) = KindOf[e.t]
                  \/ x.k = "null" /\ ~e.s /\ (HasTypeAttr(e, "nullable") \/ DefinesValue(e))
\* an object of members only, without type attributes: its members in order, the last of a name
PlainMembers(e) == e.t = "object" /\ e.s /\ ~InfoHas(e.a, "typeAttributes") /\
                   \A i \in 1..Len(e.c) : e.c[i].t = "member" /\ HasStrKey(e.c[i]) /\ e.c[i].c[1].v # ""
Shown(m) == ~HasTypeAttr(m, "optional") \/ DefinesValue(m.c[2])
Scalars(m) == m.c[2].t \in {"string", "number", "boolean"}
ScalarOf(m) == LET v == m.c[2]
                   w == IF v.s THEN v ELSE IF ~IsNil(FirstSample(v)) THEN FirstSample(v) ELSE Attr(v, "default")
               IN  IF ~IsNil(w) THEN Literal(w.t, w.v)
                   ELSE IF HasTypeAttr(m, "nullable") \/ HasTypeAttr(v, "nullable") THEN VNull
                   ELSE Literal(v.t, DefVal(v.t))
Told(e, x) ==
  LET ms == SelectSeq(e.c, Shown)
      name(m) == m.c[1].v
      first == SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : ~\E j \in 1..(i - 1) : name(ms[j]) = name(ms[i]))
      last(n) == ms[CHOOSE i \in 1..Len(ms) : name(ms[i]) = n /\ \A j \in (i + 1)..Len(ms) : name(ms[j]) # n]
  IN  PlainMembers(e) => /\ x.ks = [i \in 1..Len(first) |-> name(ms[first[i]])]
                         /\ \A i \in 1..Len(x.ks) : Scalars(last(x.ks[i])) => x.c[i] = ScalarOf(last(x.ks[i]))
Follows(e) == LET x == GenBody(e) IN KeysUnique(x) /\ Kinded(e, x) /\ Told(e, x)
Init == part \in Parts /\ vals = InitVals
Next == \E e \in Share(Structures) : Judge([op |-> "body", el |-> e], Follows(e))
Spec == Init /\ [][Next]_vars
=============================================================================

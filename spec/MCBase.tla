------------------------------- MODULE MCBase -------------------------------
(* Frame of the exhaustive models.  Each model MC_X chooses the initial       *)
(* states and the operations; Do performs one operation and reports the       *)
(* transition, so that it can be replayed on the real library.                *)
EXTENDS Machine, Json

CONSTANTS MaxNodes, Deep

VARIABLES slots, reg
vars == <<slots, reg>>

Fits(sl) == FoldFunction(LAMBDA x, y : x + y, 0, [i \in 1..NSlots |-> Nodes(sl[i])]) <= MaxNodes

Do(o) ==
  LET r == Apply(o, slots, reg)
  IN  /\ Fits(r.slots)
      /\ PrintT("STEP " \o ToJson([o |-> o, slots |-> slots, reg |-> reg, r |-> r]))
      /\ slots' = r.slots
      /\ reg' = r.reg

Used == {i \in 1..NSlots : ~IsNil(slots[i])}

\* every path to an element in e (with what may be changed through the interface)
RECURSIVE Paths(_)
Paths(e) ==
  IF IsNil(e) THEN {}
  ELSE {<<>>}
       \cup UNION {{<<<<"m", i>>>> \o p : p \in Paths(e.m[i].el)} : i \in 1..Len(e.m)}
       \cup UNION {{<<<<"a", i>>>> \o p : p \in Paths(e.a[i].el)} : i \in 1..Len(e.a)}
       \cup UNION {{<<<<"c", i>>>> \o p : p \in Paths(e.c[i])} : i \in 1..Len(e.c)}
RECURSIVE Open2(_, _)
\* paths along which every step can be changed (not the key of a member, not a boxed element)
Mutable(e) == {p \in Paths(e) : Open2(e, p)}
Open2(e, p) == p = <<>> \/ /\ (p[1][1] = "c" => e.t \in Listlike \/ (e.t = "member" /\ p[1][2] = 2))
                           /\ Open2(Step(e, p[1][1], p[1][2]), Tail(p))
At2(s, p) == Locate(slots[s], p)

Unrelated(i, p, j, q) == i # j \/ (~IsPrefix(p, q) /\ ~IsPrefix(q, p))

\* small elements
N1 == MkV("number", "1")
S(x) == Str(x)
Obj(c) == MkC("object", c)
Arr(c) == MkC("array", c)
Mem(k, v) == Member(k, v)
Named(e, n) == [e EXCEPT !.n = n]
WithM(e, k, x) == [e EXCEPT !.m = InfoSet(e.m, k, x)]
WithA(e, k, x) == [e EXCEPT !.a = InfoSet(e.a, k, x)]
TA(e, xs) == WithA(e, "typeAttributes", Arr([i \in 1..Len(xs) |-> S(xs[i])]))
Id(e, x) == WithM(e, "id", S(x))

SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
=============================================================================

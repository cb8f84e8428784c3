------------------------------- MODULE MC_E05 -------------------------------
(* Meta and attributes as insertion-ordered maps: every history of the        *)
(* operations on the meta and attributes of one element, and on those of the  *)
(* elements stored in them.                                                   *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 3}, "thorough": {"NSlots": 2, "MaxNodes": 4}, "invariants": ["Unique"], "properties": ["Laws"]}
EXTENDS MCBase

K == {"a", "b", "id"}
W == {"m", "a"}
Els == {N1, S("x")}

Init == slots = [InitSlots EXCEPT ![1] = Empty("object")] /\ reg = <<>>

D(i, w) == [d |-> 1, p |-> i, w |-> w]
Depth1 == {<<>>} \cup {<<<<w, 1>>>> : w \in {v \in W : Info(slots[1], v) # <<>>}}

Next ==
  \/ /\ ~IsNil(slots[1])
     /\ \E p \in Depth1, w \in W :
        LET x == Info(At2(1, p), w)
        IN
        \/ \E k \in K : \/ \E e \in Els : Do([op |-> "iset", k |-> k, el |-> e] @@ D(p, w))
                        \/ Do([op |-> "ierase", k |-> k] @@ D(p, w))
                        \/ Do([op |-> "iclaim", k |-> k, j |-> 2] @@ D(p, w))
                        \/ Do([op |-> "ifind", k |-> k] @@ D(p, w))
                        \/ Do([op |-> "isetc", k |-> k, s |-> 1, q |-> <<>>] @@ D(p, w))
        \/ \E i \in 1..Len(x) : \/ Do([op |-> "ieraseat", i |-> i] @@ D(p, w))
                                \/ Do([op |-> "iclaimat", i |-> i, j |-> 2] @@ D(p, w))
        \/ Do([op |-> "iclear"] @@ D(p, w))
        \/ \E q \in Depth1, u \in W :
             \/ Do([op |-> "icopy", s |-> 1, q |-> q, u |-> u] @@ D(p, w))
             \/ /\ Unrelated(1, p, 1, q) \/ (p = q /\ w # u)
                /\ \E o \in {"imove", "iswap"} : Do([op |-> o, s |-> 1, q |-> q, u |-> u] @@ D(p, w))
  \/ ~IsNil(slots[2]) /\ Do([op |-> "drop", d |-> 2])

Spec == Init /\ [][Next]_vars

RECURSIVE AllUnique(_)
AllUnique(e) == /\ UniqueKeys(e.m) /\ UniqueKeys(e.a)
                /\ \A i \in 1..Len(e.m) : AllUnique(e.m[i].el)
                /\ \A i \in 1..Len(e.a) : AllUnique(e.a[i].el)
Unique == \A i \in 1..NSlots : AllUnique(slots[i])

\* what is said of the map, independently of how the operators are written
ASSUME \A k \in K, l \in K : \A x \in {<<>>, <<[k |-> "a", el |-> N1]>>, <<[k |-> "b", el |-> N1], [k |-> "a", el |-> S("y")]>>} :
  \A e \in Els :
    /\ InfoGet(InfoSet(x, k, e), k) = e
    /\ k # l => InfoGet(InfoSet(x, k, e), l) = InfoGet(x, l)
    /\ IsPrefix([i \in 1..Len(x) |-> x[i].k], [i \in 1..Len(InfoSet(x, k, e)) |-> InfoSet(x, k, e)[i].k])
    /\ ~InfoHas(InfoErase(x, k), k)
    /\ k # l => InfoGet(InfoErase(x, k), l) = InfoGet(x, l)
    /\ InfoClaim(x, k) = InfoErase(x, k)

\* nothing happens to the kind, name or content of the element that owns the map
Laws == [][(~IsNil(slots[1]) /\ ~IsNil(slots'[1])) =>
             (slots'[1].t = slots[1].t /\ slots'[1].n = slots[1].n /\ slots'[1].c = slots[1].c)]_vars
=============================================================================

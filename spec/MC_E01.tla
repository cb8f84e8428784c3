------------------------------- MODULE MC_E01 -------------------------------
(* Two trees, one a copy, move or assignment of (a part of) the other: every  *)
(* history of copying, moving, assigning, swapping and modifying.             *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 12, "Length": 3}, "thorough": {"NSlots": 2, "MaxNodes": 12, "Length": 4}, "invariants": ["Kind"], "properties": ["OneTreeAtATime"]}
EXTENDS MCBase

CONSTANT Length

Trees == { Arr(<<N1>>), Obj(<<Mem("a", N1)>>), WithA(WithM(MkC("enum", <<S("x")>>), "id", S("i")), "k", N1) }
      \cup (IF Deep THEN { MkC("select", <<MkC("option", <<N1>>)>>), MkC("holder", <<S("x")>>), MkC("extend", <<N1>>) } ELSE {})

Init == slots \in {[InitSlots EXCEPT ![1] = e] : e \in Trees} /\ reg = <<>>

DP(i, p) == [d |-> i, p |-> p]
SQ(i, q) == [s |-> i, q |-> q]

Steps ==
  \/ \E i \in Used : \E q \in Paths(slots[i]) : \E d \in 1..NSlots \ {i} :
        \/ Do([op |-> "copy", d |-> d] @@ SQ(i, q))
        \/ Do([op |-> "clone", d |-> d, f |-> 15] @@ SQ(i, q))
  \/ \E i \in Used : \E d \in 1..NSlots \ {i} : Do([op |-> "move", d |-> d, s |-> i])
  \/ \E i \in Used : \E p \in Mutable(slots[i]) :
        LET e == At2(i, p)
        IN \/ Do([op |-> "name", x |-> "zz"] @@ DP(i, p))
           \/ Do([op |-> "setdef"] @@ DP(i, p))
           \/ e.t \in Listlike /\ e.s /\ e.c # <<>> /\ Do([op |-> "era", i |-> 1] @@ DP(i, p))
           \/ e.t = "array" /\ e.s /\ Do([op |-> "push", el |-> N1] @@ DP(i, p))
           \/ Do([op |-> "iset", w |-> "m", k |-> "id", el |-> S("i")] @@ DP(i, p))
           \/ e.t = "member" /\ e.s /\ Do([op |-> "mval", el |-> S("new")] @@ DP(i, p))
           \/ \E j \in Used : \E q \in Paths(slots[j]) :
                LET f == At2(j, q)
                    apart == Unrelated(i, p, j, q)
                    same == i = j /\ p = q
                    inner == q \in Mutable(slots[j])
                IN \/ e.t = f.t /\ (apart \/ same) /\ Do([op |-> "assign"] @@ DP(i, p) @@ SQ(j, q))
                   \/ e.t = f.t /\ e.s /\ f.s /\ Do([op |-> "dcopy"] @@ DP(i, p) @@ SQ(j, q))
                   \/ e.t = f.t /\ e.s /\ f.s /\ apart /\ inner /\
                        \E o \in {"dmove", "dswap"} : Do([op |-> o] @@ DP(i, p) @@ SQ(j, q))
                   \/ \E w \in {"m", "a"} :
                        \/ Do([op |-> "icopy", w |-> w, u |-> w] @@ DP(i, p) @@ SQ(j, q))
                        \/ apart /\ inner /\ Do([op |-> "iswap", w |-> w, u |-> w] @@ DP(i, p) @@ SQ(j, q))
                        \/ apart /\ inner /\ Do([op |-> "imove", w |-> w, u |-> w] @@ DP(i, p) @@ SQ(j, q))
           \/ \E j \in Used \ {i} : slots[j].t = e.t /\ Do([op |-> "massign", s |-> j] @@ DP(i, p))
  \/ Cardinality(Used) > 1 /\ \E i \in Used : Do([op |-> "drop", d |-> i])

Next ==
  /\ TLCGet("level") <= Length
  /\ Steps

Spec == Init /\ [][Next]_vars

Kind == \A i \in 1..NSlots : IsNil(slots[i]) \/ slots[i].t \in Kinds
\* what is done through one tree alone is not visible in another
OneTreeAtATime == [][\E i \in 1..NSlots, j \in 1..NSlots : \A k \in (1..NSlots) \ {i, j} : slots'[k] = slots[k]]_vars
=============================================================================

------------------------------- MODULE MC_E16 -------------------------------
(* Traversals of every small tree.                                            *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 20}, "thorough": {"NSlots": 1, "MaxNodes": 40}, "invariants": ["Once"]}
EXTENDS MCBase

L0 == {Named(N1, "A"), S("x"), Empty("object"), Obj(<<>>)}
V0 == L0 \cup {Nil}
L1 == {MkC(t, c) : t \in {"array", "object", "extend", "option"}, c \in SeqsUpTo(L0, 2)}
      \cup {MkC("member", <<k, v>>) : k \in V0, v \in V0} \cup {MkC(t, <<x>>) : t \in Boxed, x \in V0}
      \cup {WithM(Arr(<<N1>>), "id", S("A")), WithA(Arr(<<N1>>), "samples", Arr(<<Named(S("s"), "A")>>))}
Small == {Arr(<<Named(N1, "A"), S("x")>>), Obj(<<Mem("k", Named(N1, "A")), Mem("l", Nil)>>), MkC("enum", <<Arr(<<Named(N1, "A")>>)>>), MkC("holder", <<Named(N1, "A")>>),
          MkC("extend", <<Obj(<<Mem("a", N1)>>), Named(Obj(<<>>), "A")>>), MkC("member", <<Nil, Arr(<<N1>>)>>), Named(Arr(<<Arr(<<N1>>)>>), "A")}
L2 == {MkC(t, <<x>>) : t \in {"array", "object"}, x \in L1} \cup {MkC("member", <<S("k"), x>>) : x \in L1}
      \cup {Arr(<<x, y>>) : x \in Small, y \in IF Deep THEN Small \cup L1 ELSE Small} \cup {MkC("select", <<MkC("option", <<x>>), MkC("option", <<S("x"), y>>)>>) : x \in Small, y \in Small}
      \cup {MkC("select", <<>>), MkC("select", <<Named(MkC("option", <<>>), "A")>>)}
L3 == {Obj(<<Mem("a", x), y>>) : x \in IF Deep THEN L2 ELSE Small, y \in Small}
U == {Empty(t) : t \in Kinds} \cup {MkSet(t) : t \in Kinds} \cup L0 \cup L1 \cup L2 \cup L3

Init == reg = <<>> /\ slots \in {<<e>> : e \in U}
Next == \E x \in {"A", "number", "zz"} : Do([op |-> "walk", s |-> 1, q |-> <<>>, x |-> x])
Spec == Init /\ [][Next]_vars

RECURSIVE Count(_)
Count(e) == 1 + FoldFunction(LAMBDA x, y : x + y, 0, [i \in 1..Len(e.c) |-> IF IsNil(e.c[i]) \/ e.t \in Boxed THEN 0 ELSE Count(e.c[i])])
Once == LET w == WalkAll(slots[1])
        IN  /\ Cardinality({w[i] : i \in 1..Len(w)}) = Len(w) /\ Len(w) = Count(slots[1])
            /\ \A i \in 1..Len(w), j \in 1..Len(w) :               \* parents first, siblings in order
                 (IsPrefix(w[i], w[j]) \/ (\E n \in 1..Len(w[i]) : n <= Len(w[j]) /\ SubSeq(w[i], 1, n - 1) = SubSeq(w[j], 1, n - 1) /\ w[i][n] < w[j][n])) => i <= j
=============================================================================

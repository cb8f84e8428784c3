------------------------------- MODULE MC_E04 -------------------------------
(* The tolerant comparison over pairs of elements whose meta and attributes   *)
(* range over all arrangements of a few entries.                              *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 100}, "thorough": {"NSlots": 2, "MaxNodes": 100}, "invariants": ["Weaker"]}
EXTENDS MCBase

Ent == { [k |-> "sourceMap", el |-> Arr(<<N1>>)], [k |-> "sourceMap", el |-> Arr(<<>>)], [k |-> "a", el |-> N1], [k |-> "a", el |-> S("x")], [k |-> "b", el |-> N1], [k |-> "ba", el |-> N1], [k |-> "bb", el |-> N1] }
Infos == { x \in SeqsUpTo(Ent, IF Deep THEN 3 ELSE 2) : UniqueKeys(x) }
Few == { x \in Infos : Len(x) < 2 }
U == { [N1 EXCEPT !.a = x] : x \in Infos } \cup { [N1 EXCEPT !.m = x] : x \in Infos }
     \cup { [Empty(t) EXCEPT !.n = "A", !.a = x] : t \in {"string", "object"}, x \in Few }
     \cup { Named(N1, "A"), Named(S("1"), "A"), Named(MkV("ref", "1"), "A"), S("1"), MkV("number", "2"), Empty("number"), Empty("null"), MkSet("null"), Obj(<<>>), Arr(<<>>), Arr(<<N1>>),
            Arr(<<WithA(N1, "sourceMap", N1)>>), Arr(<<Named(N1, "A")>>) }

Init == slots \in {<<x, y>> : x \in U, y \in U} /\ reg = <<>>
DS == [op |-> "teq", d |-> 1, p |-> <<>>, s |-> 2, q |-> <<>>]
Next == \/ Do(DS @@ [mode |-> "default", ia |-> <<>>, im |-> <<>>])
        \/ slots[1].n = slots[2].n /\ \E ia \in {<<>>, <<"a">>}, im \in {<<>>, <<"a">>, <<"sourceMap", "b">>} : Do(DS @@ [mode |-> "keys", ia |-> ia, im |-> im])
Spec == Init /\ [][Next]_vars

Weaker ==
  LET x == slots[1] y == slots[2]
      T(ia, im) == TolerantEq(x, y, ia, im)
  IN /\ (Eq(x, y) /\ x.n = y.n) => T({}, {})
     /\ T({}, {}) => T({"a"}, {}) /\ T({}, {"a"})
     /\ T({"sourceMap"}, {}) = TolerantEq(y, x, {"sourceMap"}, {})
     /\ x.t # y.t => ~T({"a", "b", "sourceMap"}, {"a", "b", "sourceMap"})
=============================================================================

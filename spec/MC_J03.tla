------------------------------- MODULE MC_J03 -------------------------------
(* Every short history of adding, finding, copying, assigning and comparing   *)
(* on small containers.                                                       *)
\* CONFIG {"invariants": ["KeysUnique", "EqualityLaws"], "properties": ["OnlyTheNamed"]}
EXTENDS ValuesBase

A1 == VArr(<<VNum("1"), VStr("x")>>)
A2 == VArr(<<VStr("x"), VNum("1")>>)
O1 == VObj(<<"a", "b">>, <<VNum("1"), A1>>)
O2 == VObj(<<"b", "a">>, <<A1, VNum("1")>>)
Leaves == {VNull, VTrue, VStr("1"), VNum("1")}
Items == Leaves \cup {A1, A2, O1, O2, NoProps, VArr(<<>>)}
Starts0 == {VNull, A1, A2, O1, O2, VObj(<<"o">>, <<O1>>), VArr(<<O1, A1>>), VArr(<<O2, VNull>>)}
Init == /\ part \in Parts
        /\ \E x \in Share(Starts0), y \in {VNull, O1, O2, VArr(<<A2, O1>>), VArr(<<A1>>)} : vals = <<x, y, VNull>>
RECURSIVE VPaths(_), VSize(_)
VPaths(x) == {<<>>} \cup UNION {{<<i>> \o p : p \in VPaths(x.c[i])} : i \in 1..Len(x.c)}
VSize(x) == 1 + FoldLeft(LAMBDA a, y : a + VSize(y), 0, x.c)
Of(i, k) == {p \in VPaths(vals[i]) : ValAt(vals[i], p).k = k}
Try(o) == LET r == Apply(o, vals) IN TRUE = (\A i \in 1..3 : VSize(r.vals[i]) <= 12) /\ Do(o)
RECURSIVE Norm(_)
Norm(x) == IF x.k = "object" THEN <<"object", {<<x.ks[i], Norm(x.c[i])>> : i \in 1..Len(x.c)}>>
           ELSE IF x.k = "array" THEN <<"array", {<<"", <<"", i>>, Norm(x.c[i])>> : i \in 1..Len(x.c)}>> ELSE <<x.k, {<<x.v>>}>>
Next ==
  /\ TLCGet("level") <= (IF Deep THEN 3 ELSE 2)
  /\ \/ \E p \in Of(1, "object"), k \in {"a", "b", "z"} :
          \/ \E x \in (IF Deep THEN Items ELSE Leaves \cup {O2}), h \in {"move", "copy", "pair"} : Try([op |-> "vput", d |-> 1, p |-> p, k |-> k, el |-> x, how |-> h])
          \/ \E s \in BOOLEAN : Do([op |-> "vfind", d |-> 1, p |-> p, k |-> k, set |-> s, el |-> VStr("new")])
     \/ \E p \in Of(1, "array"), x \in Items :
          LET a == ValAt(vals[1], p)
              b == PutItem(a, x)
              n(c) == Cardinality({i \in 1..Len(c) : Norm(c[i]) = Norm(x)})
          IN  /\ Assert(n(b.c) >= 1 /\ (n(a.c) = 0 => b.c = Append(a.c, x)) /\ (n(a.c) > 0 => b = a), <<"item", a, x>>)
              /\ Try([op |-> "vitem", d |-> 1, p |-> p, el |-> x])
     \/ \E p \in VPaths(vals[1]), q \in VPaths(vals[2]) :
          \/ Do([op |-> "veq", d |-> 1, p |-> p, s |-> 2, q |-> q])
          \/ \E b \in BOOLEAN : Try([op |-> "vassign", d |-> 1, p |-> p, s |-> 2, q |-> q, b |-> b])
     \/ \E q \in VPaths(vals[1]) : Do([op |-> "vcopy", d |-> 3, s |-> 1, q |-> q])
     \/ Do([op |-> "vmove", d |-> 3, s |-> 1])
RECURSIVE Sub(_)
Sub(x) == {x} \cup UNION {Sub(x.c[i]) : i \in 1..Len(x.c)}
KeysUnique == \A i \in 1..3 : \A x \in Sub(vals[i]) : Cardinality(Lits(x.ks)) = Len(x.ks)
\* equality: an equivalence, not looking at the order of members, looking at that of items
EqualityLaws == \A i, j \in 1..2 : EqV(vals[i], vals[j]) <=> (Norm(vals[i]) = Norm(vals[j]))
OnlyTheNamed == [][Cardinality({i \in 1..3 : vals'[i] # vals[i]}) <= 2]_vars
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_E17 -------------------------------
(* The semiring of cardinalities and the size of every small element.         *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 500}, "thorough": {"NSlots": 1, "MaxNodes": 500}}
EXTENDS MCBase

C4(a, b, c, d) == <<a, b, c, d>>
Big == {Card(65535), Card(65536), Card(65537), C4(255, 255, 255, 127), C4(0, 0, 0, 128), C4(254, 255, 255, 255), C4(85, 85, 85, 85)}
Cards == {Open, Card(0), Card(1), Card(2), Card(3), Card(7)} \cup Big \cup (IF Deep THEN {Card(4), Card(5), Card(256), Card(1000), C4(253, 255, 255, 255)} ELSE {})
ASSUME /\ CAdd(Card(200), Card(100)) = Card(300) /\ CMul(Card(300), Card(300)) = Card(90000) /\ CMul(Card(65535), Card(65537)) = Open
       /\ CMul(Card(65536), Card(65536)) = Open /\ CMul(Card(65535), Card(65535)) = C4(1, 0, 254, 255) /\ CAdd(C4(255, 255, 255, 127), C4(255, 255, 255, 127)) = C4(254, 255, 255, 255)
ASSUME \A x \in Cards, y \in Cards, z \in Cards :
  /\ CAdd(x, y) = CAdd(y, x) /\ CMul(x, y) = CMul(y, x)
  /\ CAdd(x, CAdd(y, z)) = CAdd(CAdd(x, y), z) /\ CMul(x, CMul(y, z)) = CMul(CMul(x, y), z)
  /\ CMul(x, CAdd(y, z)) = CAdd(CMul(x, y), CMul(x, z))
  /\ CAdd(Card(0), x) = x /\ CMul(Card(0), x) = Card(0) /\ CMul(Card(1), x) = x
  /\ CAdd(Open, x) = Open /\ (x # Card(0) => CMul(Open, x) = Open)

TAs == {<<>>, <<"fixed">>, <<"nullable">>, <<"fixedType">>, <<"fixed", "nullable">>, <<"nullable", "fixedType">>, <<"required">>}
Tag(A, X) == {IF x = <<>> THEN e ELSE TA(e, x) : e \in A, x \in X}
Smp(e, x) == WithA(e, "samples", Arr(<<x>>))
Prim == {Empty("string"), S("x"), S(""), Empty("number"), N1, Empty("boolean"), MkV("boolean", "true"), Empty("null"), MkSet("null")}
Valued == {Smp(Empty("string"), S("s")), WithA(Empty("boolean"), "default", MkV("boolean", "true")), Smp(Empty("number"), N1),
           WithA(Empty("string"), "samples", Arr(<<>>)), WithA(Empty("string"), "samples", Empty("array"))}
P1 == Tag(Prim, TAs) \cup Tag(Valued, {<<>>, <<"fixed">>, <<"nullable">>})
B == {S("x"), Empty("string"), Empty("boolean"), TA(Empty("boolean"), <<"nullable">>), TA(N1, <<"fixed">>), Empty("null"), TA(MkV("boolean", "true"), <<"fixed">>)}
Var(m) == WithA(m, "variable", MkV("boolean", "true"))
Ms == {Mem("a", x) : x \in B} \cup {Var(Mem("a", x)) : x \in {S("x"), Empty("boolean")}} \cup {TA(Mem("a", Empty("boolean")), <<"nullable">>), Var(TA(Mem("a", Empty("enum")), <<"nullable">>)), TA(Mem("a", Empty("enum")), <<"nullable">>), Empty("member"), Mem("n", Nil),
       WithA(Mem("a", Empty("boolean")), "variable", MkV("boolean", "false"))}
Lists == {Empty("array"), Arr(<<>>)} \cup {Arr(<<x>>) : x \in B} \cup {Arr(<<x, y>>) : x \in B, y \in {S("x"), Empty("boolean"), Empty("string")}}
Objs == {Empty("object"), Obj(<<>>)} \cup {Obj(<<x>>) : x \in Ms} \cup {Obj(<<x, Mem("b", y)>>) : x \in Ms, y \in {S("x"), Empty("boolean"), Empty("string")}}
En(l) == WithA(Empty("enum"), "enumerations", l)
Enums == {Empty("enum"), MkC("enum", <<N1>>), En(Empty("array")), En(Arr(<<>>))} \cup {En(Arr(<<x>>)) : x \in B} \cup {En(Arr(<<x, y>>)) : x \in B, y \in B}
         \cup {WithA(En(Arr(<<S("x"), S("y")>>)), "default", N1), En(S("x")), En(Arr(<<En(Arr(<<S("p"), S("q")>>)), S("r")>>))}
Sel(o) == MkC("select", o)
Opt(c) == MkC("option", c)
Selects == {Empty("select"), Sel(<<>>), Empty("option"), Opt(<<>>)} \cup {Opt(<<x>>) : x \in Ms} \cup {Opt(<<x, y>>) : x \in Ms, y \in {Mem("b", Empty("boolean")), Mem("b", S("x"))}}
           \cup {Sel(<<Opt(<<x>>), Opt(<<y>>)>>) : x \in Ms, y \in Ms}
Exts == {Empty("extend"), MkC("extend", <<>>)} \cup {MkC("extend", <<x>>) : x \in B \cup {TA(Obj(<<Mem("a", Empty("boolean"))>>), <<"fixedType">>)}}
        \cup {MkC("extend", <<x, y>>) : x \in {Empty("boolean"), TA(Empty("boolean"), <<"nullable">>), TA(Empty("boolean"), <<"fixed">>)}, y \in {Empty("boolean"), MkV("boolean", "false"), Smp(Empty("boolean"), MkV("boolean", "false"))}}
        \cup {MkC("extend", <<TA(Obj(<<Mem("a", Empty("boolean"))>>), <<"fixedType">>), Obj(<<Mem("a", x), Mem("b", y)>>)>>) : x \in B, y \in B}
Refs == {WithA(MkV("ref", "A"), "resolved", x) : x \in B \cup Enums}
Hold == {Empty("holder"), MkC("holder", <<Nil>>)} \cup {MkC("holder", <<x>>) : x \in B}
Coll == Tag(Lists, TAs) \cup Tag(Objs, TAs) \cup Tag(Enums, {<<>>, <<"fixed">>, <<"nullable">>})
\* nested one level deeper
Deeper == LET X == {TA(Obj(<<x>>), <<"fixedType">>) : x \in Ms} \cup {TA(Arr(<<x>>), <<"fixed">>) : x \in B} \cup {Arr(<<S("x")>>), Obj(<<Mem("a", S("x"))>>), En(Arr(<<S("x"), S("y")>>)), Sel(<<Opt(<<Mem("a", S("x"))>>), Opt(<<>>)>>),
                       MkC("extend", <<TA(Obj(<<Mem("a", Empty("boolean"))>>), <<"fixedType">>)>>), WithA(MkV("ref", "A"), "resolved", TA(Obj(<<Mem("a", Empty("boolean"))>>), <<"fixedType">>))}
          IN  Tag({Obj(<<Mem("k", x), Mem("l", Empty("boolean"))>>) : x \in X} \cup {Arr(<<x, Empty("boolean")>>) : x \in X}, {<<>>, <<"fixed">>, <<"fixedType">>})
              \cup {Obj(<<x, Mem("l", Empty("boolean"))>>) : x \in {y \in X : y.t = "select"}}
              \cup Tag({Obj(<<x, Mem("l", Empty("boolean"))>>) : x \in {y \in X : y.t \in {"select", "ref"}}}, {<<"fixedType">>, <<"fixed">>})
\* products and sums around the largest count
BigKeys == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "aa", "bb", "cc", "dd", "ee", "ff", "gg">>
Many(n, x) == [i \in 1..n |-> Mem(BigKeys[i], x)]
Huge == {TA(Obj(Many(n, Empty("boolean"))), <<"fixedType">>) : n \in {16, 31, 32, 33}} \cup {TA(Arr([i \in 1..32 |-> Empty("boolean")]), <<"fixed", "nullable">>)}
        \cup {TA(Obj(Many(n, TA(Empty("boolean"), <<"nullable">>))), <<"fixedType">>) : n \in {20, 21}}
        \cup {Sel(<<Opt(Many(31, Empty("boolean"))), Opt(Many(31, Empty("boolean")))>>), Sel(<<Opt(Many(31, Empty("boolean"))), Opt(Many(30, Empty("boolean")))>>)}
U == P1 \cup Huge \cup Ms \cup Coll \cup Selects \cup Exts \cup Refs \cup Hold \cup Deeper

Init == reg = <<>> /\ slots \in {<<e>> : e \in U} 
Next == \/ Sizeable(slots[1]) /\ \E b \in {TRUE, FALSE} : Do([op |-> "size", s |-> 1, q |-> <<>>, b |-> b])
        \/ slots[1] = Empty("null") /\ \E i \in Cards, j \in Cards : Do([op |-> "card", i |-> i, j |-> j])
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_J01 -------------------------------
(* Writing every small value as JSON and reading it back.                     *)
\* CONFIG {}
EXTENDS ValuesBase

Char(c) == Encode(c)
Points1 == (0..127) \cup {128, 133, 160, 233, 255, 256, 2047, 2048, 8232, 8233, 8364, 55295, 57344, 65279, 65533, 65535, 65536, 128512, 1114111}
Marks == {34, 92, 47, 10, 117, 0, 31, 48, 233}
Texts == {<<>>} \cup {Char(c) : c \in Points1} \cup {Char(a) \o Char(b) : a \in Marks, b \in Marks}
         \cup (IF Deep THEN {Char(a) \o Char(b) \o Char(c) : a \in Marks, b \in Marks, c \in Marks} ELSE {})
Nums == {<<48>>, <<45, 49>>, <<49, 46, 53>>, <<49, 101, 43, 57>>}
Leaves == {VNull, VTrue, VFalse, VNum(<<48>>), VStr(<<>>), VStr(<<97, 34>>)}
Ks == {<<>>, <<97>>, <<34, 10>>}
Over(X, n) == {VArr(c) : c \in SeqsUpTo(X, n)} \cup {VObj(<<k>>, <<x>>) : k \in Ks, x \in X} \cup {NoProps}
              \cup {VObj(<<k, l>>, <<x, y>>) : k \in {<<97>>, <<>>}, l \in {<<98>>}, x \in X, y \in X}
L1 == Over(Leaves, IF Deep THEN 3 ELSE 2)
Pick == {VArr(<<>>), NoProps, VArr(<<VNull>>), VArr(<<VStr(<<>>), VArr(<<>>)>>), VObj(<<<<97>>>>, <<VTrue>>), VObj(<<<<97>>, <<98>>>>, <<VNum(<<48>>), VArr(<<VFalse, NoProps>>)>>)}
L2 == Over(Pick \cup {VNull}, IF Deep THEN 3 ELSE 2)
L3 == Over({VArr(<<x>>) : x \in Pick} \cup {VObj(<<<<97>>>>, <<x>>) : x \in Pick}, 2)
Values == {VStr(t) : t \in Texts} \cup {VObj(<<t>>, <<VNull>>) : t \in Texts} \cup {VNum(n) : n \in Nums} \cup Leaves \cup L1 \cup L2 \cup L3
ReadsBack(x, packed) == LET t == WriteJson(x, packed)
                            r == ReadJson(t)
                        IN  /\ r.ok /\ Same(r.x, x)
                            /\ (packed => \A i \in 1..Len(OutsideStrings(t, 1, FALSE)) : OutsideStrings(t, 1, FALSE)[i] \notin {9, 10, 13, 32})
                            /\ \A i \in 1..Len(t) : t[i] >= 32 \/ (t[i] = 10 /\ ~packed)
Init == part \in Parts /\ vals = InitVals
Next == \E x \in Share(Values), p \in BOOLEAN : Judge([op |-> "json", el |-> x, packed |-> p], ReadsBack(x, p))
Spec == Init /\ [][Next]_vars
=============================================================================

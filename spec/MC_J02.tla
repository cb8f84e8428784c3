------------------------------- MODULE MC_J02 -------------------------------
(* Writing every small value as YAML and reading it back.                     *)
\* CONFIG {}
EXTENDS ValuesBase

Char(c) == Encode(c)
Points1 == (0..160) \cup {233, 255, 256, 2047, 2048, 8231, 8232, 8233, 8234, 8364, 55295, 57344, 65278, 65279, 65280, 65533, 65534, 65535, 65536, 128512, 1114111}
Marks == {34, 92, 58, 10, 32, 45, 35, 0, 110, 133, 233}
Words == {<<110, 117, 108, 108>>, <<78, 117, 108, 108>>, <<116, 114, 117, 101>>, <<70, 65, 76, 83, 69>>, <<121, 101, 115>>, <<110, 111>>, <<79, 110>>, <<111, 102, 102>>,
          <<121>>, <<78>>, <<110, 117, 108, 108, 115>>, <<97, 98>>, <<97, 45, 98>>, <<97, 49>>, <<126>>, <<91, 93>>, <<97, 58>>, <<97, 95>>, <<90, 122>>, <<91>>, <<96>>, <<64>>, <<123>>}
Texts == {<<>>} \cup Words \cup {Char(c) : c \in Points1} \cup {Char(a) \o Char(b) : a \in Marks, b \in Marks}
         \cup (IF Deep THEN {Char(a) \o Char(b) \o Char(c) : a \in Marks, b \in Marks, c \in Marks} ELSE {})
Nums == {<<48>>, <<45, 49>>, <<49, 46, 53>>, <<49, 101, 43, 57>>}
Leaves == {VNull, VTrue, VFalse, VNum(<<48>>), VStr(<<>>), VStr(<<97, 34>>)}
Ks == {<<>>, <<97>>, <<34, 10>>}
Over(X, n) == {VArr(c) : c \in SeqsUpTo(X, n)} \cup {VObj(<<k>>, <<x>>) : k \in Ks, x \in X} \cup {NoProps}
              \cup {VObj(<<k, l>>, <<x, y>>) : k \in {<<97>>, <<>>}, l \in {<<98>>}, x \in X, y \in X}
L1 == Over(Leaves, IF Deep THEN 3 ELSE 2)
Pick == {VArr(<<>>), NoProps, VArr(<<VNull>>), VArr(<<VStr(<<>>), VArr(<<>>)>>), VObj(<<<<97>>>>, <<VTrue>>), VObj(<<<<97>>, <<98>>>>, <<VNum(<<48>>), VArr(<<VFalse, NoProps>>)>>)}
L2 == Over(Pick \cup {VNull}, IF Deep THEN 3 ELSE 2)
L3 == Over({VArr(<<x>>) : x \in Pick} \cup {VObj(<<<<97>>>>, <<x>>) : x \in Pick}, 2)
Values == {VStr(t) : t \in Texts} \cup {VObj(<<t>>, <<VNull>>) : t \in Texts} \cup {VNum(n) : n \in Nums} \cup Leaves \cup L1 \cup L2 \cup L3
Printed(t) == LET cs == Points(t) IN \A i \in 1..Len(cs) : YamlPrintable(cs[i])
ReadsBack(x) == LET t == WriteYaml(x)
                    r == ReadYaml(t)
                IN  r.ok /\ Same(r.x, x) /\ Printed(t)
Init == part \in Parts /\ vals = InitVals
Next == \E x \in Share(Values) : Judge([op |-> "yaml", el |-> x], ReadsBack(x))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_P13 -------------------------------
(* Media types: every short text, every media type written from its parts.    *)
\* CONFIG {}
EXTENDS GrammarBase

Marks8 == {Oct("a"), Oct("/"), Oct("+"), Oct(";"), Oct("="), Oct("\""), Oct("\\"), Oct(" "), Oct("-"), Oct("~"), Oct("(")}
Bytes == 1..255
More == Texts(Marks8, IF Deep THEN 5 ELSE 4)
Less == Texts(Marks8, IF Deep THEN 4 ELSE 3)
Long(n) == [i \in 1..n |-> 97]
Limits == {Long(n) \o Oct("/x") : n \in 126..129} \cup {Oct("a/") \o Long(n) \o Oct("+b") : n \in 126..129} \cup {Oct("a/b;") \o Long(n) \o Oct("=v") : n \in 126..129} \cup {Oct("a/b;k=") \o Long(n) : n \in 126..129}
Names == {Oct("application"), Oct("a"), Oct("x.y"), Oct("JSON")}
Type(t, s, x, ps) == [type |-> t, subtype |-> s, suffix |-> x, params |-> ps]
ValuesOf == {<<>>, Oct("v"), Oct("a b"), Oct("a;b"), Oct("\""), Oct("\\"), Oct("*~"), Oct("{}"), TwoOctets, <<9>>, Oct("=")}
ParamsOf == {<<k, v>> : k \in {Oct("k"), Oct("x!")}, v \in ValuesOf}
Media == {Type(t, s, x, ps) : t \in Names, s \in Names \cup {Oct("schema"), Oct("a+b")}, x \in {<<>>, Oct("json"), Oct("Json")}, ps \in {<<>>} \cup {<<p>> : p \in ParamsOf}}
         \cup {Type(Oct("a"), Oct("b"), <<>>, ps) : ps \in SeqsUpTo(ParamsOf, IF Deep THEN 3 ELSE 2)}
Sane == {m \in Media : m.subtype # Oct("a+b") \/ m.suffix # <<>>}
\* a carriage return in a value is written as a letter
Law(o, r) ==
  /\ (r.m.type # <<>> /\ r.m.subtype # <<>> /\ \A i \in 1..Len(r.m.params) : 13 \notin {r.m.params[i][2][j] : j \in 1..Len(r.m.params[i][2])}) => MediaOf(r.text) = r.m
  /\ r.m.type = <<>> => r.m = NoMedia
  /\ r.m.subtype = <<>> => r.m.suffix = <<>> /\ r.m.params = <<>>
  /\ r.schema => r.json
WrittenLaw(o, r) == Law(o, r) /\ r.m = o.m
Ask(x) == Judge([op |-> "media", x |-> x], Law)
Init == part \in Parts
Next == \/ \E x \in Share(More), b \in {Oct("a/"), Oct("a/b;a="), Oct("a/b;a=\"")} : Ask(b \o x)
        \/ \E x \in Share(Less) : Ask(x) \/ Ask(Oct("a/b; a=b") \o x \o Oct("c=d")) \/ Ask(Oct("a/b ") \o x \o Oct("c=d"))
        \/ \E b \in Share(Bytes) : \E l \in {<<Oct(""), Oct("/x")>>, <<Oct("a/x"), <<>>>>, <<Oct("a/x;k="), <<>>>>, <<Oct("a/x;k=v"), <<>>>>, <<Oct("a/x;k=\""), Oct("\"")>>,
                                                   <<Oct("a/x;k=\"\\"), Oct("\"")>>, <<Oct("a/x;k"), Oct("=v")>>} : Ask(l[1] \o <<b>> \o l[2])
        \/ \E x \in Share(Limits) : Ask(x)
        \/ \E m \in Share(Sane) : Judge([op |-> "media", x |-> MediaText(m), m |-> m], WrittenLaw)
Spec == Init /\ [][Next]_part
=============================================================================

------------------------------- MODULE MC_P10 -------------------------------
(* URI templates: every short text around and within an expression, and every *)
(* template written from its parts.                                           *)
\* CONFIG {}
EXTENDS GrammarBase

Inside == {Oct("a"), Oct("."), Oct("%"), Oct("4"), Oct("*"), Oct(":"), Oct("1"), Oct("0"), Oct(","), Oct("+"), Oct(" "), Oct("{"), TwoOctets}
Outside == {Oct("a"), Oct("/"), Oct(":"), Oct("%"), Oct("4"), Oct("~"), Oct("{"), Oct("}"), Oct("."), TwoOctets}
Begins == {Oct("http://"), Oct("https"), Oct("ftp://h"), Oct("file:///"), Oct("httpx/")}
Within == Texts(Inside, IF Deep THEN 5 ELSE 4)
Open == Texts(Inside, 3)
Around == Texts(Outside, IF Deep THEN 5 ELSE 4)
Short == Texts(Outside, 2)
\* one character of every class and around its limits
Marks == 1..160 \cup {161, 55295, 57344, 63743, 63744, 64975, 64976, 65007, 65008, 65519, 65520, 65533, 65536} \cup {65536 * k + d : k \in 1..16, d \in {65533, 65534}} \cup {917504, 921599, 921600, 1114109, 1114111}
\* templates from their parts
Sign(op) == CASE op = "reserved_chars" -> "+" [] op = "fragment" -> "#" [] op = "query_param" -> "?" [] op = "query_continue" -> "&"
              [] op = "label" -> "." [] op = "path" -> "/" [] op = "path_param" -> ";" [] op = "reserved" -> "|" [] OTHER -> ""
Number8(n) == Oct(ToString(n))
WrittenVar(v) == v.x \o (IF v.explode THEN Oct("*") ELSE IF v.prefix > 0 THEN Oct(":") \o Number8(v.prefix) ELSE <<>>)
RECURSIVE Commas(_)
Commas(vs) == IF Len(vs) = 1 THEN WrittenVar(vs[1]) ELSE WrittenVar(vs[1]) \o Oct(",") \o Commas(Tail(vs))
WrittenPart(p) == IF p.k = "text" THEN p.x ELSE Oct("{" \o Sign(p.op)) \o Commas(p.vars) \o Oct("}")
Written(ps) == Cat([i \in 1..Len(ps) |-> WrittenPart(ps[i])])
Names == {Oct("a"), Oct("b.c"), Oct("%4a_"), Oct("0")}
MkVar(n, p, e) == [k |-> "var", x |-> n, explode |-> e, prefix |-> p]
Vars == {MkVar(n, 0, e) : n \in Names, e \in BOOLEAN} \cup {MkVar(Oct("a"), p, FALSE) : p \in {1, 10, 999, 1000, 9999}}
Exprs == {[k |-> "expr", op |-> op, vars |-> vs, open |-> FALSE] : op \in {"noop", "reserved_chars", "fragment", "label", "path", "path_param", "query_param", "query_continue", "reserved"},
          vs \in {<<v>> : v \in Vars} \cup {<<v, MkVar(Oct("z"), 0, FALSE)>> : v \in Vars}}
Lits == {[k |-> "text", x |-> x] : x \in {Oct("/a"), Oct("%20") \o TwoOctets}}
Few == {e \in Exprs : e.vars = <<MkVar(Oct("a"), 0, FALSE)>> \/ e.vars = <<MkVar(Oct("b.c"), 0, TRUE), MkVar(Oct("z"), 0, FALSE)>>}
Templates == {<<a, b>> : a \in Lits \cup Few, b \in Exprs} \cup {<<a, b>> : a \in Exprs, b \in Lits} \cup {<<a>> : a \in Lits \cup Exprs}
             \cup (IF Deep THEN {<<a, b, c>> : a \in Lits, b \in Exprs, c \in Few} ELSE {})
Good(p) == p.k = "text" \/ (p.k = "expr" /\ ~p.open /\ Supported(p.op) /\ \A j \in 1..Len(p.vars) : p.vars[j].k = "var")
Law(o, r) ==
  \* nothing is lost
  /\ o.x \in {r.scheme \o r.host \o r.path, r.scheme \o Oct("://") \o r.host \o r.path}
  /\ (r.warnings = <<>>) = (\A i \in 1..Len(r.parts) : Good(r.parts[i]))
  \* what is said to be right is written like that
  /\ r.warnings = <<>> => Written(r.parts) = o.x
  \* what is wrong is where it is said to be
  /\ \A i \in 1..Len(r.parts) : r.parts[i].k = "invalid" => SubSeq(o.x, r.parts[i].at + 1, r.parts[i].at + Len(r.parts[i].x)) = r.parts[i].x
WrittenLaw(o, r) == Law(o, r) /\ r.parts = o.ps

Ask(x) == Judge([op |-> "uri", x |-> x], Law)
Init == part \in Parts
Next == \/ \E x \in Share(Within) : Ask(Oct("{") \o x \o Oct("}"))
        \/ \E x \in Share(Open) : Ask(Oct("/{") \o x)
        \/ \E x \in Share(Around) : Ask(x)
        \/ \E b \in Begins, x \in Share(Short) : Ask(b \o x)
        \/ \E c \in Share(Marks), b \in {<<>>, Oct("{"), Oct("{a")} : Ask(b \o Encode(c) \o (IF b = <<>> THEN <<>> ELSE Oct("}")))
        \/ \E t \in Share(Templates) : Judge([op |-> "uri", x |-> Written(t), ps |-> t], WrittenLaw)
Spec == Init /\ [][Next]_part
=============================================================================

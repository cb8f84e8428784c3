------------------------------- MODULE MC_X01 -------------------------------
(* Small expressions against all short texts. *)
\* CONFIG {}
EXTENDS ToolsBase

Ch(c) == [k |-> "ch", c |-> c]
AnyC == [k |-> "any"]
SetC(c) == [k |-> "set", c |-> c]
NotC(c) == [k |-> "not", c |-> c]
Bol == [k |-> "bol"]
Eol == [k |-> "eol"]
Cat(xs) == [k |-> "cat", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
Rep(x, c) == [k |-> "rep", x |-> x, c |-> c]
Grp(n, x) == [k |-> "grp", n |-> n, x |-> x]
Atoms == {Ch("a"), Ch("b"), AnyC, SetC("ab"), NotC("a")}
Units == Atoms \cup {Rep(x, c) : x \in Atoms, c \in {"*", "+", "?"}}
Grouped(n) == {Grp(n, x) : x \in Units} \cup {Grp(n, Alt(<<x, y>>)) : x \in {Ch("a"), Cat(<<Ch("a"), Ch("b")>>)}, y \in {Ch("b"), Ch("c")}}
Opt(n) == {Rep(g, "?") : g \in {Grp(n, Ch("a")), Grp(n, Ch("b")), Grp(n, Cat(<<Ch("b"), Ch("a")>>))}}
Expressions ==
  Units
  \cup {Cat(<<x, y>>) : x \in Units, y \in Grouped(1) \cup Opt(1)}
  \cup {Cat(<<Bol, x, Eol>>) : x \in Grouped(1)}
  \cup {Cat(<<x, y>>) : x \in Grouped(1) \cup Opt(1), y \in Grouped(2) \cup Opt(2)}
  \cup {Cat(<<Bol, x, Ch("c"), y, Eol>>) : x \in Opt(1), y \in Grouped(2)}
  \cup {Alt(<<Grp(1, Ch("a")), Grp(2, Ch("b"))>>), Alt(<<Cat(<<Bol, Ch("a")>>), Cat(<<Ch("b"), Eol>>)>>)}
Letters == {"a", "b", "c"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE {""} \cup {c \o t : c \in Letters, t \in Texts(n - 1)}
\* a line end is a character like any other
Long == {"aaaa", "abca", "acab", "ccab", "bacb", "\n", "a\nb", "b\na", "\na", "ab\n", "c\n\na", "aca\nb"}
Targets == Texts(IF Deep THEN 4 ELSE 2) \cup Long
Ask(t, a, x, n) == Do([op |-> "regex", t |-> t, ast |-> a, x |-> x, n |-> n])
Init == st = InitTools /\ part \in Parts
Next ==
  \/ \E t \in {t \in Targets : Mine(Len(t) + (IF t = "" \/ CharAt(t, Len(t)) = "\n" THEN 0 ELSE Code[CharAt(t, Len(t))]))} :
       \/ \E x \in Expressions : TRUE = Determined(x, t) /\ Ask(t, <<x>>, Render(x), 8)
       \/ \E x \in {Cat(<<Grp(1, Ch("a")), Grp(2, AnyC)>>)}, n \in 2..4 : Ask(t, <<x>>, Render(x), n)
       \/ \E x \in {"", "(", "a(", "[", "[a", "a)(", "*("} : Ask(t, <<>>, x, 8)
  \/ part = 1 /\ \E i \in 0..33 : Do([op |-> "section", i |-> i])
Spec == Init /\ [][Next]_vars
=============================================================================

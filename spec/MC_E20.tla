------------------------------- MODULE MC_E20 -------------------------------
(* Finding members by key and spelling keys over every kind of key.           *)
\* CONFIG {"quick": {"NSlots": 1, "MaxNodes": 40}, "thorough": {"NSlots": 1, "MaxNodes": 40}, "invariants": ["First"]}
EXTENDS MCBase

Sm(x) == WithA(Empty("string"), "samples", Arr(<<x>>))
Df(x) == WithA(Empty("string"), "default", x)
Str0 == {S("a"), S("b"), S(""), Empty("string"), Sm(S("a")), Df(S("b")), WithA(Sm(S("a")), "default", S("b")), TA(Empty("string"), <<"nullable">>), Named(S("a"), "A"), WithM(S("a"), "description", S("d"))}
Ext == {MkC("extend", c) : c \in SeqsUpTo(IF Deep THEN Str0 ELSE {S("a"), S(""), Empty("string"), Sm(S("b")), Df(S("a"))}, 2)} \cup {Empty("extend"), MkC("extend", <<N1>>), MkC("extend", <<N1, S("a")>>), MkC("extend", <<Empty("string"), Empty("string"), S("a")>>)}
KeyE == Str0 \cup Ext \cup {N1, Empty("number"), MkC("enum", <<S("a")>>), Arr(<<S("a")>>)}
ValE == {N1, S("a"), S("k"), Empty("string"), Nil}
Mm == {MkC("member", <<k, N1>>) : k \in KeyE} \cup {MkC("member", <<S("k"), v>>) : v \in ValE} \cup {MkC("member", <<Nil, N1>>), Empty("member"), MkSet("member"),
        MkC("member", <<S("k"), Mem("k", S("a"))>>)}
InO == {Mem("a", N1), Mem("b", S("a")), Mem("", N1), MkC("member", <<MkC("extend", <<S("a")>>), N1>>), MkC("member", <<N1, S("a")>>), S("a"), MkV("ref", "a"), MkC("member", <<Empty("string"), N1>>), Empty("member"),
        Mem("a", S("second")), MkC("select", <<MkC("option", <<Mem("a", N1)>>)>>), MkC("member", <<Named(S("b"), "A"), N1>>)}
Os == {Obj(c) : c \in SeqsUpTo(InO, IF Deep THEN 3 ELSE 2)}
De == {WithM(e, "description", x) : e \in {N1, Empty("object")}, x \in {S("d"), S(""), Empty("string"), N1, Arr(<<S("d")>>)}} \cup {WithA(N1, "description", S("d")), WithM(N1, "descriptions", S("d")), WithM(WithA(N1, "x", Arr(<<>>)), "x", S("q"))}
U == Mm \cup Os \cup De \cup Str0 \cup {MkV("number", "a"), MkV("ref", "a")}

RECURSIVE Keyable(_)
Keyable(e) ==
  CASE e.t = "string" -> /\ (~IsNil(FirstSample(e)) => FirstSample(e).t = "string" /\ Keyable(FirstSample(e)))
                         /\ (InfoHas(e.a, "default") => Attr(e, "default").t = "string" /\ Keyable(Attr(e, "default")))
    [] e.t = "extend" -> e.s /\ e.c # <<>> /\ \A i \in 1..Len(e.c) : e.c[i].t = "string" /\ Keyable(e.c[i])
    [] OTHER -> FALSE
Init == reg = <<>> /\ slots \in {<<e>> : e \in U}
E == slots[1]
Q == [s |-> 1, q |-> <<>>]
Next ==
  \/ E.t = "object" /\ E.s /\ \E k \in {"a", "b", ""} : Do([op |-> "bykey", k |-> k] @@ Q)
  \/ E.t = "object" /\ E.s /\ \E k \in {"a", "b"} : Do([op |-> "find", d |-> 1, p |-> <<>>, k |-> k])
  \/ E.t = "member" /\ E.s /\ Do([op |-> "keystr"] @@ Q)
  \/ E.t = "member" /\ E.s /\ Keyable(E.c[1]) /\ Do([op |-> "rkey", s |-> 1, q |-> <<<<"c", 1>>>>])
  \/ E.t # "object" /\ \E k \in {"a", "k", ""} : Do([op |-> "cmp", k |-> k] @@ Q)
  \/ (E.m # <<>> \/ E.a # <<>>) /\ \E k \in {"description", "x"} : Do([op |-> "descr", k |-> k] @@ Q)
Spec == Init /\ [][Next]_vars

First == E.t = "object" => \A k \in {"a", "b", ""} :
           LET n == MemberByKey(E.c, k)
               ok(i) == E.c[i].t = "member" /\ E.c[i].s /\ E.c[i].c[1].t = "string" /\ E.c[i].c[1].s /\ E.c[i].c[1].v = k
           IN  IF n = 0 THEN \A i \in 1..Len(E.c) : ~ok(i) ELSE ok(n) /\ \A i \in 1..n - 1 : ~ok(i)
=============================================================================

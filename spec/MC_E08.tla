------------------------------- MODULE MC_E08 -------------------------------
(* Making elements of every kind in every way, setting and naming them.       *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 8}, "thorough": {"NSlots": 2, "MaxNodes": 8}, "invariants": ["Defaults"], "properties": ["StaysSet"]}
EXTENDS MCBase

Init == slots = InitSlots /\ reg = <<>>
Values == [number |-> {"0", "42", "-7", "9223372036854775807"}, string |-> {"", "a", "null"}, boolean |-> {"true", "false"}, ref |-> {"", "A"}]
Hows(t) == {"empty", "new", "default", "named", "gen"}
Mk(t, how, n, x) == [op |-> "mk", d |-> 1, t |-> t, how |-> how, n |-> n, x |-> x]
D == [d |-> 1, p |-> <<>>]
Samples0(t) == CASE t \in DOMAIN Values -> {MkV(t, x) : x \in Values[t]} [] t = "null" -> {MkSet(t)}
                 [] t \in Listlike -> {MkC(t, <<>>), MkC(t, IF t = "select" THEN <<MkC("option", <<>>)>> ELSE <<N1>>)}
                 [] t = "member" -> {MkSet(t), Mem("a", N1), Mem("", Nil)} [] OTHER -> {MkSet(t), MkC(t, <<N1>>)}
Odd == {"", "Array", "strin", "strings", "holder", "zzz", "arra", "arrays", "generi", "option ", "optio", "objects", "mixin", "A", "NULL", "number ", "members", "refs", "re", "sel", "selects", "extended"}

Next ==
  \/ IsNil(slots[1]) /\ \E t \in Kinds :
        \/ \E how \in Hows(t), n \in {"A", "string"} : Do(Mk(t, how, n, ""))
        \/ t \in DOMAIN Values /\ \E x \in Values[t], n \in {"A", ""} :
             \E how \in (IF t = "ref" THEN {"primt", "made"} ELSE {"prim", "primt", "made"}) : Do(Mk(t, how, n, x))
  \/ IsNil(slots[1]) /\ IsNil(slots[2]) /\ \E x \in Reserved \cup Odd : Do([op |-> "reserved", x |-> x])
  \/ ~IsNil(slots[1]) /\
        \/ Do([op |-> "setdef"] @@ D)
        \/ \E e \in Samples0(slots[1].t) : Do([op |-> "setdata", el |-> e] @@ D)
        \/ \E x \in {"A", "", "string", slots[1].t} : Do([op |-> "name", x |-> x] @@ D)
        \/ slots[1].t \in Listlike /\ slots[1].s /\ Do([op |-> "clr"] @@ D)
        \/ slots[1].t \in Boxed /\ slots[1].s /\ Do([op |-> "eclaim", j |-> 2] @@ D)
        \/ slots[1].t = "member" /\ slots[1].s /\ Do([op |-> "mclaim", j |-> 2] @@ D)
        \/ Do([op |-> "drop", d |-> 1])
Spec == Init /\ [][Next]_vars

Defaults == \A i \in Used : slots[i].s \/ (slots[i].v = "" /\ slots[i].c = <<>>)
StaysSet == [][(~IsNil(slots[1]) /\ slots[1].s /\ ~IsNil(slots'[1])) => slots'[1].s]_vars
=============================================================================

------------------------------- MODULE MC_J05 -------------------------------
(* The schema of every small data structure, and what it admits.              *)
\* CONFIG {}
EXTENDS Structures

RECURSIVE Vals(_)
Vals(x) == {x} \cup UNION {Vals(x.c[i]) : i \in 1..Len(x.c)}
\* a JSON schema in the large: keys once, required names once
Formed(s) == \A y \in Vals(s) : /\ Cardinality(Lits(y.ks)) = Len(y.ks)
                                /\ (y.k = "object" /\ HasKey(y, "required") /\ GetKey(y, "required").k = "array" =>
                                      LET r == GetKey(y, "required") IN
                                      \A i, j \in 1..Len(r.c) : i = j \/ r.c[i] # r.c[j])
\* required names are listed
Listed(s) == HasKey(s, "required") => HasKey(s, "properties") /\ \A i \in 1..Len(GetKey(s, "required").c) : HasKey(GetKey(s, "properties"), GetKey(s, "required").c[i].v)
RECURSIVE NoStrays(_)
\* structures as the parser makes them
NoStrays(e) ==
  CASE IsNil(e) -> TRUE
    [] e.t \in {"string", "number", "boolean", "null"} -> TRUE
    [] e.t = "object" -> \A i \in 1..Len(e.c) : /\ e.c[i].t \in {"member", "ref", "select", "extend"}
                                                /\ (e.c[i].t = "member" => e.c[i].s /\ HasStrKey(e.c[i]) /\ e.c[i].c[1].v # "" /\ ~IsVariable(e.c[i]) /\ NoStrays(e.c[i].c[2]))
                                                /\ (e.c[i].t = "ref" => Resolved(e.c[i]).t = "object" /\ NoStrays(Resolved(e.c[i])))
                                                /\ (e.c[i].t = "extend" => NoStrays(Merge(e.c[i].c).el))
                                                /\ (e.c[i].t = "select" => e.c[i].c # <<>> /\ \A j \in 1..Len(e.c[i].c) : NoStrays([e.c[i].c[j] EXCEPT !.t = "object"]))
    [] e.t = "array" -> \A i \in 1..Len(e.c) : e.c[i].t \notin {"member", "select", "option", "holder"} /\ NoStrays(e.c[i])
    [] e.t = "enum" -> InfoHas(e.a, "enumerations") /\ Attr(e, "enumerations").c # <<>>
    [] e.t = "ref" -> NoStrays(Resolved(e))
    [] e.t = "extend" -> NoStrays(Merge(e.c).el)
    [] OTHER -> FALSE
Whole(e) == IF e.t = "ref" THEN Resolved(e) ELSE IF e.t = "extend" THEN Merge(e.c).el ELSE e
Typed(e) == Whole(e).t \in {"string", "number", "boolean", "array", "object"}
\* null exactly for nullable
Null(e, s) == Typed(e) => (Admits(s, VNull) <=> HasTypeAttr(Whole(e), "nullable"))
\* the declared kind only
Samples1 == {VStr("x"), VNum("1"), VTrue, VArr(<<>>), NoProps}
OfItsKind(e, s) == Typed(e) => \A x \in Samples1 : Admits(s, x) => JsonType(x) = Whole(e).t
\* objects with fixed or fixedType are closed, others are open
Shut(e) == HasTypeAttr(e, "fixed") \/ HasTypeAttr(e, "fixedType")
Extra(b) == PutProp(b, "unheard of", VNull)
Closed(e, s) == Whole(e).t = "object" /\ NoStrays(e) /\ GenBody(e).k = "object" =>
                  LET b == GenBody(e) IN IF Shut(Whole(e)) THEN ~Admits(s, Extra(b)) ELSE (Admits(s, b) <=> Admits(s, Extra(b)))
\* members: required ones must be there
Req(e, m) == ~HasTypeAttr(m, "optional") /\ (HasTypeAttr(m, "required") \/ Shut(e))
Demands(e, s) == e.t = "object" /\ e.s /\ Len(e.c) = 1 /\ NoStrays(e) /\ e.c[1].t = "member" =>
                  (Admits(s, NoProps) <=> ~Req(e, e.c[1]))
\* where the two generators agree, the example is an instance of the schema: nothing is fixed, or only values and objects of plain members are
RECURSIVE NothingFixed(_), PlainParts(_), NamesIn(_)
NamesIn(e) == CASE e.t = "member" -> <<KeyVal(e)>>                         \* of an object's parts, mixed in or not
                [] e.t \in {"object", "option", "select"} -> Flat([i \in 1..Len(e.c) |-> NamesIn(e.c[i])]) \o (IF e.t = "object" /\ ~IsNil(FirstSample(e)) THEN NamesIn(FirstSample(e)) ELSE <<>>)
                [] e.t = "ref" -> NamesIn(Resolved(e))
                [] e.t = "extend" -> NamesIn(Merge(e.c).el)
                [] OTHER -> <<>>
NoOverrides(e) == Cardinality(Lits(NamesIn(e))) = Len(NamesIn(e))
NothingFixed(e) == \/ IsNil(e)
                   \/ /\ ~Shut(e)
                      /\ \A i \in 1..Len(e.c) : NothingFixed(e.c[i])
                      /\ \A i \in 1..Len(e.a) : NothingFixed(e.a[i].el)
PlainParts(e) == CASE e.t \in {"string", "number", "boolean"} -> TRUE
                   [] e.t = "object" -> e.s /\ UniqueMembers(e.c) /\ \A i \in 1..Len(e.c) : e.c[i].t = "member" /\ PlainParts(e.c[i].c[2])
                   [] OTHER -> FALSE
Agree(e, s) == NoStrays(e) /\ NoOverrides(e) /\ (NothingFixed(e) \/ PlainParts(e)) => Admits(s, GenBody(e))
Says(e) == LET s == GenSchema(e) IN Formed(s) /\ (NoStrays(e) => Listed(s)) /\ Null(e, s) /\ OfItsKind(e, s) /\ Closed(e, s) /\ Demands(e, s) /\ Agree(e, s)
Init == part \in Parts /\ vals = InitVals
Next == \E e \in Share(Structures) : Judge([op |-> "schema", el |-> e], Says(e))
Spec == Init /\ [][Next]_vars
=============================================================================

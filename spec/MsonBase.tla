------------------------------ MODULE MsonBase ------------------------------
(* Blocks of documents with data structures, and what holds of every one.     *)
EXTENDS BlueBase

TypeAs(ty, nest, at) == [ty |-> ty, nest |-> nest, at |-> at]
Plainly(ty) == TypeAs(ty, <<>>, <<>>)
Lone(x) == [x |-> x, v |-> FALSE]
VarVal(x) == [x |-> x, v |-> TRUE]
Mem(nm, vs, td, d, b) == I([k |-> "mem", nm |-> nm, nv |-> FALSE, kt |-> Plainly(""), vs |-> vs, td |-> td, d |-> d], b)
VarMem(nm, kt, vs, td) == I([k |-> "mem", nm |-> nm, nv |-> TRUE, kt |-> kt, vs |-> vs, td |-> td, d |-> ""], <<>>)
Item(x, td) == Mem("", IF x = "" THEN <<>> ELSE <<Lone(x)>>, td, "", <<>>)
Sec(c, vs, b) == I([k |-> "sec", c |-> c, vs |-> vs], b)
Mixin(x) == I([k |-> "mix", x |-> x, td |-> Plainly("")], <<>>)
OneI(b) == I([k |-> "one"], b)
AttrsI(td, b) == I([k |-> "attributes", td |-> td], b)
DsH == H(1, [k |-> "ds"])
TypeH(x, td) == H(2, [k |-> "type", x |-> x, td |-> td])
TSecH(c, vs) == H(3, [k |-> "tsec", c |-> c, vs |-> vs])
Replying(media, td, b) == <<WholeH("GET", <<Lit("/a")>>), Response("200", media, <<AttrsI(td, b)>>)>>

\* the structures of a result, as they are written
Written(r) == LET y == NamedEls(r, "dataStructure") IN [i \in 1..Len(y) |-> y[i].c[1]]
RECURSIVE All3(_)
\* an element and all inside it
All3(e) == <<e>> \o Concat([i \in 1..Len(e.c) |-> All3(e.c[i])]) \o Concat([i \in 1..Len(e.a) |-> All3(e.a[i].el)])
Sane(e) ==
  /\ e.t = "number" /\ e.s => IsNumber(e.v)
  /\ e.t = "boolean" /\ e.s => e.v \in {"true", "false"}
  /\ e.t = "object" => \A i \in 1..Len(e.c) : e.c[i].t \in {"member", "ref", "select"}
  /\ e.t = "select" => \A i \in 1..Len(e.c) : e.c[i].t = "option"
  /\ e.t = "object" => \A i \in 1..Len(e.c), j \in 1..Len(e.c) : i < j => ~(HasStrKey(e.c[i]) /\ HasStrKey(e.c[j]) /\ e.c[i].c[1].v = e.c[j].c[1].v)
  /\ \A i \in 1..Len(e.a) : e.a[i].k = "typeAttributes" => \A j \in 1..Len(e.a[i].el.c) : e.a[i].el.c[j].v \in {"required", "optional", "fixed", "fixedType", "nullable"}
  /\ e.t = "enum" => LET l == InfoGet(e.a, "enumerations")
                     IN  /\ \A i \in 1..Len(l.c), j \in 1..Len(l.c) : i < j => ~SameEl(l.c[i], l.c[j])
                         /\ \A i \in 1..Len(l.c) : IsLiteral(l.c[i]) => \E j \in 1..Len(InfoGet(l.c[i].a, "typeAttributes").c) : InfoGet(l.c[i].a, "typeAttributes").c[j].v = "fixed"
\* the types of a document have their names, in their order
Headers2(doc) == SelectSeq(doc, LAMBDA b : b.k = "h" /\ b.s.k = "type")
Ids(r) == LET y == SelectSeq(Written(r), LAMBDA e : InfoHas(e.m, "id")) IN [i \in 1..Len(y) |-> InfoGet(y[i].m, "id").v]
SaneAll(doc, r) ==
  \* (some warnings about enumerations, and circles of mixins found late, have no place: known-findings.json)
  /\ SoundFrom(LAMBDA n : IF n.code = eMson THEN 0 ELSE 1, doc, r)
  /\ r.rc = 0 => /\ \A i \in 1..Len(Written(r)) : LET es == All3(Written(r)[i]) IN \A j \in 1..Len(es) : Sane(es[j])
                 /\ Ids(r) = [i \in 1..Len(Headers2(doc)) |-> Headers2(doc)[i].s.x]
=============================================================================

------------------------------ MODULE Elements ------------------------------
(* API Elements (Refract) as values, and the operations of the library on     *)
(* them as pure operators.  Shaped like the code: one operator per operation  *)
(* of packages/drafter/src/refract.                                           *)
(*                                                                            *)
(* An element is a record of one fixed shape:                                 *)
(*   t  kind            n  name          s  set (not "empty()")               *)
(*   m  meta            a  attributes    both: sequence of [k, el]            *)
(*   v  primitive value c  children      (meaningful only when s)             *)
(* A missing element (null pointer) is Nil.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Nil == [t |-> "nil", n |-> "", m |-> <<>>, a |-> <<>>, s |-> FALSE, v |-> "", c |-> <<>>]
IsNil(e) == e.t = "nil"

Primitive == {"null", "boolean", "number", "string", "ref"}
Listlike  == {"array", "object", "extend", "option", "select"}
Boxed     == {"enum", "holder"}                      \* exactly one (possibly missing) child
Kinds     == Primitive \cup Listlike \cup Boxed \cup {"member"}

DefName(t) == IF t = "holder" THEN "" ELSE t         \* DataType::name

Reserved == {"array", "boolean", "enum", "extend", "generic", "member", "null",
             "number", "object", "option", "ref", "select", "string"}

DefVal(t)  == CASE t = "number" -> "0" [] t = "boolean" -> "false" [] OTHER -> ""
DefKids(t) == CASE t \in Boxed -> <<Nil>> [] t = "member" -> <<Nil, Nil>> [] OTHER -> <<>>

Empty(t)  == [t |-> t, n |-> DefName(t), m |-> <<>>, a |-> <<>>, s |-> FALSE, v |-> "", c |-> <<>>]
MkV(t, v) == [Empty(t) EXCEPT !.s = TRUE, !.v = v]
MkC(t, c) == [Empty(t) EXCEPT !.s = TRUE, !.c = c]
MkSet(t)  == [Empty(t) EXCEPT !.s = TRUE, !.v = DefVal(t), !.c = DefKids(t)]
Str(x)    == MkV("string", x)

(* ---------------------------------------------------------------- InfoElements *)
InfoIdx(x, k) == LET S == {i \in 1..Len(x) : x[i].k = k}
                 IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
InfoHas(x, k) == InfoIdx(x, k) # 0
InfoGet(x, k) == IF InfoHas(x, k) THEN x[InfoIdx(x, k)].el ELSE Nil
InfoSet(x, k, e) == IF InfoHas(x, k) THEN [x EXCEPT ![InfoIdx(x, k)].el = e]
                    ELSE Append(x, [k |-> k, el |-> e])
InfoErase(x, k) == SelectSeq(x, LAMBDA p : p.k # k)
InfoDrop(x, i)  == RemoveAt(x, i)                     \* erase / claim at a position
InfoClaim(x, k) == IF InfoHas(x, k) THEN InfoDrop(x, InfoIdx(x, k)) ELSE x
Keys(x) == {x[i].k : i \in 1..Len(x)}
UniqueKeys(x) == Cardinality(Keys(x)) = Len(x)

(* --------------------------------------------------------------------- clone *)
Bit(f, b) == (f \div b) % 2 = 1                       \* b: 1 meta 2 attributes 4 value 8 name 16 no id
Clone(e, f) ==
  [t |-> e.t,
   n |-> IF Bit(f, 8) THEN e.n ELSE DefName(e.t),
   m |-> IF Bit(f, 1) THEN (IF Bit(f, 16) THEN InfoErase(e.m, "id") ELSE e.m) ELSE <<>>,
   a |-> IF Bit(f, 2) THEN e.a ELSE <<>>,
   s |-> Bit(f, 4) /\ e.s,
   v |-> IF Bit(f, 4) THEN e.v ELSE "",
   c |-> IF Bit(f, 4) THEN e.c ELSE <<>>]

(* ------------------------------------------------------------------ equality *)
RECURSIVE Eq(_, _)
InfoEq(x, y) == /\ Len(x) = Len(y)
                /\ \A i \in 1..Len(x) : x[i].k = y[i].k /\ Eq(x[i].el, y[i].el)
ContentEq(x, y) == /\ x.v = y.v
                   /\ Len(x.c) = Len(y.c)
                   /\ \A i \in 1..Len(x.c) : Eq(x.c[i], y.c[i])
Eq(x, y) == /\ x.t = y.t
            /\ x.s = y.s
            /\ InfoEq(x.a, y.a)
            /\ InfoEq(x.m, y.m)
            /\ (x.s => ContentEq(x, y))

(* drafter::Equal: order-insensitive, ignoring some keys, name-sensitive at the top *)
Kept(x, ign) == SelectSeq(x, LAMBDA p : p.k \notin ign)
InfoMapEq(x, y, ign) ==
  LET p == Kept(x, ign)
      q == Kept(y, ign)
  IN  /\ Len(p) = Len(q)
      /\ Keys(p) = Keys(q)
      /\ \A i \in 1..Len(p) : Eq(p[i].el, InfoGet(q, p[i].k))
TolerantEq(x, y, ignA, ignM) ==
  /\ x.t = y.t
  /\ x.s = y.s
  /\ x.n = y.n
  /\ InfoMapEq(x.m, y.m, ignM)
  /\ InfoMapEq(x.a, y.a, ignA)
  /\ (x.s => ContentEq(x, y))

(* -------------------------------------------------------------------- object *)
(* the key of a member as a string, if it is a set string *)
HasStrKey(e) == e.t = "member" /\ e.s /\ e.c[1].t = "string" /\ e.c[1].s
FirstIdx(seq, P(_)) == LET S == {i \in 1..Len(seq) : P(seq[i])}
                       IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ObjFind(c, name) == FirstIdx(c, LAMBDA e : HasStrKey(e) /\ e.c[1].v = name)
ObjDrop(c, name) == IF ObjFind(c, name) = 0 THEN c ELSE RemoveAt(c, ObjFind(c, name))
ObjPush(c, e) == Append(IF HasStrKey(e) THEN ObjDrop(c, e.c[1].v) ELSE c, e)
Member(name, val) == MkC("member", <<Str(name), val>>)
ObjAdd(c, name, val) == Append(ObjDrop(c, name), Member(name, val))
MemberNames(c) == {c[i].c[1].v : i \in {j \in 1..Len(c) : HasStrKey(c[j])}}
UniqueMembers(c) == Cardinality(MemberNames(c)) = Cardinality({j \in 1..Len(c) : HasStrKey(c[j])})
PushTo(t, c, e) == IF t = "object" THEN ObjPush(c, e) ELSE Append(c, e)

(* --------------------------------------------------------------------- merge *)
SkipMeta == {"id", "prefix", "namespace"}
InfoMerge(x, y, skip) ==
  FoldLeft(LAMBDA acc, p : IF p.k \in skip THEN acc ELSE InfoSet(acc, p.k, p.el), x, y)

\* position of the member or mixin of `c` that `e` overrides, or 0
KeyVal(e) == IF e.c = <<>> THEN "" ELSE e.c[1].v
SameKey(x, e) == x.t = "member" /\ x.s /\ x.c[1].t = "string" /\ e.c[1].t = "string" /\ KeyVal(x) = KeyVal(e)
OverriddenBy(c, e) ==
  CASE e.t = "member" ->
         FirstIdx(c, LAMBDA x :
            \/ SameKey(x, e)
            \/ x.t = "select" /\ \E i \in 1..Len(x.c) :
                 LET o == x.c[i] IN \E j \in 1..Len(o.c) : SameKey(o.c[j], e))
    [] e.t = "ref" -> FirstIdx(c, LAMBDA x : x.t = "ref" /\ x.v = e.v)
    [] OTHER -> 0
MergeMember(c, e) == LET i == OverriddenBy(c, e)
                     IN  IF i = 0 THEN ObjPush(c, e) ELSE [c EXCEPT ![i] = e]

EnumUnion(old, new) ==                                     \* sequences of elements
  FoldLeft(LAMBDA acc, e : LET i == FirstIdx(acc, LAMBDA x : Eq(x, e))
                           IN  Append(IF i = 0 THEN acc ELSE RemoveAt(acc, i), e), old, new)
MergeEnums(x, y) ==                                        \* attributes of the enum elements
  LET rest == InfoMerge(x, y, {"enumerations"})
      new  == InfoGet(y, "enumerations")
      old  == InfoGet(x, "enumerations")
  IN  IF IsNil(new) \/ new.c = <<>> THEN rest
      ELSE IF IsNil(old) THEN InfoSet(rest, "enumerations", new)
      ELSE InfoSet(rest, "enumerations", [old EXCEPT !.c = EnumUnion(old.c, new.c)])

MergeInto(x, y) ==
  LET z == [x EXCEPT !.m = InfoMerge(x.m, y.m, SkipMeta),
                     !.a = IF x.t = "enum" THEN MergeEnums(x.a, y.a) ELSE InfoMerge(x.a, y.a, {})]
  IN  IF ~y.s THEN z
      ELSE CASE x.t = "object" ->
                  IF y.c = <<>> THEN z
                  ELSE [z EXCEPT !.s = TRUE, !.c = FoldLeft(MergeMember, x.c, y.c)]
             \* a list without a value stays without one: the items of the base are those of
             \* nobody in particular (fixture mson/issue-682-b pins it)
             [] x.t = "array"  -> IF x.s THEN [z EXCEPT !.c = x.c \o y.c] ELSE z
             [] OTHER          -> [z EXCEPT !.s = TRUE, !.v = y.v, !.c = y.c]

Mergeable == {"string", "number", "boolean", "array", "object", "enum", "ref"}
\* result of merging a chain: [err, el]
MergeStep(acc, e) ==
  IF acc.err \/ IsNil(e) THEN acc
  ELSE IF IsNil(acc.el) THEN [acc EXCEPT !.el = e]
  ELSE IF acc.el.t # e.t \/ e.t \notin Mergeable THEN [err |-> TRUE, el |-> Nil]
  ELSE [acc EXCEPT !.el = MergeInto(acc.el, e)]
Merge(c) == FoldLeft(MergeStep, [err |-> FALSE, el |-> Nil], c)

(* ------------------------------------------------------------------ registry *)
(* a registry is a function from names to elements (as a sequence of [k, el],  *)
(* sorted by nothing in particular)                                           *)
RegFind(reg, name) == InfoGet(reg, name)
BaseTypes == << "boolean", "number", "string", "array", "object", "enum", "null" >>
BaseReg == [i \in 1..Len(BaseTypes) |-> [k |-> BaseTypes[i], el |-> Empty(BaseTypes[i])]]
\* outcome of registering e: "ok", "taken" or "error"
RegId(e) == InfoGet(e.m, "id")
RegOutcome(reg, e) ==
  IF IsNil(RegId(e)) \/ RegId(e).t # "string" THEN "error"
  ELSE IF RegId(e).v \in Reserved THEN "error"
  ELSE IF InfoHas(reg, RegId(e).v) THEN "taken" ELSE "ok"

\* root ancestor: Nil if the name is unknown.  `seen` are the names already passed.
RECURSIVE RootFrom(_, _, _)
RootFrom(reg, name, seen) ==
  LET e == RegFind(reg, name)
  IN  IF e.n \in Reserved \/ ~InfoHas(reg, e.n) \/ e.n \in seen \cup {name} THEN e
      ELSE RootFrom(reg, e.n, seen \cup {name})
RootAncestor(reg, name) == IF InfoHas(reg, name) THEN RootFrom(reg, name, {}) ELSE Nil

(* ------------------------------------------------------------- expandability *)
RECURSIVE Expandable(_)
Expandable(e) ==
  CASE e.t = "ref" -> TRUE
    [] e.n \notin Reserved -> TRUE
    [] e.t = "holder" -> FALSE
    [] e.t = "enum" -> \/ e.s /\ ~IsNil(e.c[1]) /\ Expandable(e.c[1])
                       \/ InfoHas(e.a, "enumerations") /\ Expandable(InfoGet(e.a, "enumerations"))
    [] OTHER -> e.s /\ \E i \in 1..Len(e.c) : ~IsNil(e.c[i]) /\ Expandable(e.c[i])

(* ----------------------------------------------------------------- expansion *)
(* Results are [err, none, el]: err is the name of a type found to mix itself  *)
(* in ("" if none); none means "needs no expansion".                          *)
Some(e) == [err |-> "", none |-> FALSE, el |-> e]
None    == [err |-> "", none |-> TRUE, el |-> Nil]
Fail(x) == [err |-> x, none |-> FALSE, el |-> Nil]

\* the chain of definitions a name inherits, most derived first; <<>> if it cycles
RECURSIVE Inherit(_, _, _)
Inherit(reg, name, chain) ==
  IF name \in Reserved \/ ~InfoHas(reg, name) THEN [cycle |-> FALSE, names |-> chain]
  ELSE IF \E i \in 1..Len(chain) : chain[i] = name THEN [cycle |-> TRUE, names |-> <<>>]
  ELSE Inherit(reg, RegFind(reg, name).n, Append(chain, name))

InheritanceTree(reg, name) ==
  LET r == Inherit(reg, name, <<>>)
  IN  IF r.names = <<>> THEN Empty("extend")
      ELSE MkC("extend", [i \in 1..Len(r.names) |->
              LET nm == r.names[Len(r.names) + 1 - i]
                  d  == Clone(RegFind(reg, nm), 7 + 16)
              IN  [d EXCEPT !.m = InfoSet(d.m, "ref", Str(nm))]])

FirstErr(rs) == LET i == FirstIdx(rs, LAMBDA r : r.err # "") IN IF i = 0 THEN "" ELSE rs[i].err

\* an id that is set (the code moves only those)
HasId(e) == InfoHas(e.m, "id") /\ InfoGet(e.m, "id").s
WithIdOf(x, e)  == IF HasId(e) THEN [x EXCEPT !.m = InfoSet(x.m, "id", InfoGet(e.m, "id"))] ELSE x
IdToRef(e) == IF HasId(e) THEN [e EXCEPT !.m = InfoErase(InfoSet(e.m, "ref", InfoGet(e.m, "id")), "id")] ELSE e
NoId(e) == [e EXCEPT !.m = InfoErase(e.m, "id")]

RECURSIVE Expand(_, _, _), ExpandOrClone(_, _, _), ExpandNamed(_, _, _), ExpandMembers(_, _, _)

ExpandOrClone(e, reg, st) ==
  IF IsNil(e) THEN Some(Nil)
  ELSE LET r == Expand(e, reg, st) IN IF r.err # "" THEN r ELSE IF r.none THEN Some(e) ELSE r

\* children expanded in place; the name is reset to that of the kind
ExpandMembers(e, reg, st) ==
  LET kids == TLCEval(IF e.s THEN [i \in 1..Len(e.c) |-> ExpandOrClone(e.c[i], reg, st)] ELSE <<>>)
      err  == FirstErr(kids)
      new  == [i \in 1..Len(kids) |-> kids[i].el]
  IN  IF err # "" THEN Fail(err)
      ELSE Some([e EXCEPT !.n = DefName(e.t),
                          !.c = IF e.t = "object" THEN FoldLeft(ObjPush, <<>>, new) ELSE new])

\* of an enum, what it lists is expanded as well
EnumMembers(e, reg, st) ==
  LET v  == IF e.s THEN ExpandOrClone(e.c[1], reg, st) ELSE Some(Nil)
      en == InfoGet(e.a, "enumerations")
      ks == TLCEval([i \in 1..Len(en.c) |-> ExpandOrClone(en.c[i], reg, st)])
  IN  IF v.err # "" THEN v
      ELSE IF FirstErr(ks) # "" THEN Fail(FirstErr(ks))
      ELSE Some([e EXCEPT !.n = "enum",
                          !.c = IF e.s THEN <<v.el>> ELSE <<>>,
                          !.a = IF IsNil(en) THEN e.a
                                ELSE InfoSet(e.a, "enumerations",
                                       MkC("array", [i \in 1..Len(ks) |-> ks[i].el]))])

ExpandNamed(e, reg, st) ==
  IF \E i \in 1..Len(st) : st[i] = e.n
  THEN LET root == RootAncestor(reg, e.n)
           r == Clone(root, 1 + 2 + 16)
       IN  Some([r EXCEPT !.m = InfoSet(r.m, "ref", Str(e.n))])
  ELSE LET x == ExpandMembers(InheritanceTree(reg, e.n), reg, Append(st, e.n))
           o == IF e.t = "enum" THEN EnumMembers(e, reg, st) ELSE ExpandMembers(e, reg, st)
           w == WithIdOf(x.el, e)
       IN  IF x.err # "" THEN x
           ELSE IF o.err # "" THEN o
           ELSE Some([w EXCEPT !.s = TRUE, !.c = Append(w.c, NoId(o.el))])

ExpandRef(e, reg, st) ==
  IF ~e.s \/ e.v = "" THEN Some(e)
  ELSE IF \E i \in 1..Len(st) : st[i] = e.v THEN Fail(e.v)
  ELSE IF ~InfoHas(reg, e.v) THEN Some(e)
  ELSE LET r == ExpandOrClone(RegFind(reg, e.v), reg, Append(st, e.v))
       IN  IF r.err # "" THEN r
           ELSE Some([e EXCEPT !.a = InfoSet(e.a, "resolved", IdToRef(r.el))])

ExpandEnum(e, reg, st) == IF e.n \notin Reserved THEN ExpandNamed(e, reg, st) ELSE EnumMembers(e, reg, st)

ExpandMember(e, reg, st) ==
  LET k == ExpandOrClone(IF e.s THEN e.c[1] ELSE Nil, reg, st)
      v == ExpandOrClone(IF e.s THEN e.c[2] ELSE Nil, reg, st)
  IN  IF k.err # "" THEN k ELSE IF v.err # "" THEN v
      ELSE Some([e EXCEPT !.s = TRUE, !.c = <<k.el, v.el>>])

Expand(e, reg, st) ==
  CASE e.t \in {"holder", "null"} -> None
    [] e.t = "ref"  -> ExpandRef(e, reg, st)
    [] e.t = "enum" -> ExpandEnum(e, reg, st)
    [] e.t \in Primitive -> IF e.n \in Reserved THEN None ELSE ExpandNamed(e, reg, st)
    [] ~Expandable(e) -> None
    [] e.t = "member" -> ExpandMember(e, reg, st)
    [] e.t = "select" -> ExpandMembers([e EXCEPT !.s = TRUE], reg, st)
    [] e.n \notin Reserved -> ExpandNamed(e, reg, st)
    [] OTHER -> ExpandMembers(e, reg, st)

(* ------------------------------------------------------------------- queries *)
Is(e, t) == e.t = t
Attr(e, k) == InfoGet(e.a, k)
\* HasTypeAttribute (visitor utilities): no check that the entry is set, whose value is then ""
HasTA(e, name) == LET x == Attr(e, "typeAttributes")
                  IN  x.t = "array" /\ \E i \in 1..Len(x.c) : x.c[i].t = "string" /\ x.c[i].v = name
\* hasTypeAttr (element utilities): only set strings
HasTypeAttr(e, name) == LET x == Attr(e, "typeAttributes")
                        IN  x.t = "array" /\ \E i \in 1..Len(x.c) : x.c[i].t = "string" /\ x.c[i].s /\ x.c[i].v = name
IsVariable(e) == LET x == Attr(e, "variable") IN x.t = "boolean" /\ x.v = "true"
IsLiteral(e) == e.t # "null" /\ (\/ e.s /\ e.t \in {"string", "number", "boolean"}
                                 \/ HasTA(e, "fixed"))
Description(e) == LET d == InfoGet(e.m, "description") IN IF d.t = "string" THEN d ELSE Nil

AppendInfo(x, key, val) ==                               \* AppendInfoElement<ArrayElement>
  LET i == InfoIdx(x, key)
      l == x[i].el
  IN  IF i = 0 THEN InfoSet(x, key, MkC("array", <<val>>))
      ELSE IF ~l.s THEN [x EXCEPT ![i].el.s = TRUE, ![i].el.c = <<val>>]
      ELSE IF \E j \in 1..Len(l.c) : l.c[j].t = val.t /\ l.c[j].v = val.v THEN x
      ELSE [x EXCEPT ![i].el.c = Append(l.c, val)]

OfKind(e, t) == IF e.t = t THEN e ELSE Nil
Samples(e) == LET x == Attr(e, "samples") IN IF x.t = "array" THEN x.c ELSE <<>>
Sample(e)  == IF Samples(e) = <<>> THEN Nil ELSE OfKind(Samples(e)[1], e.t)
Default(e) == OfKind(Attr(e, "default"), e.t)
FirstSample(e) == IF Samples(e) = <<>> THEN Nil ELSE Samples(e)[1]
FindValue(e) == IF e.s THEN e ELSE IF ~IsNil(FirstSample(e)) THEN FirstSample(e) ELSE Attr(e, "default")
DefinesValue(e) == ~IsNil(FindValue(e))

RECURSIVE EnumValue(_)
EnumValue(e) ==
  IF ~IsNil(Sample(e)) THEN EnumValue(Sample(e))
  ELSE IF ~IsNil(Default(e)) THEN EnumValue(Default(e))
  ELSE IF e.s /\ ~IsNil(e.c[1]) THEN e.c[1]
  ELSE LET l == OfKind(Attr(e, "enumerations"), "array")
           pick(x) == IF IsNil(x) THEN Nil
                      ELSE IF x.t = "enum" /\ ~IsNil(EnumValue(x)) THEN EnumValue(x)
                      ELSE IF x.s THEN x ELSE Nil
           i == FirstIdx(l.c, LAMBDA x : ~IsNil(pick(x)))
       IN  IF i = 0 THEN Nil ELSE pick(l.c[i])
Value(e) ==
  IF e.t = "enum" THEN EnumValue(e)
  ELSE IF e.s THEN e
  ELSE IF ~IsNil(Sample(e)) THEN Sample(e)
  ELSE IF ~IsNil(Default(e)) THEN Default(e)
  ELSE IF HasTA(e, "nullable") THEN Nil ELSE e

ValueIsSelf(e) == /\ e.t # "enum"
                  /\ \/ e.s
                     \/ IsNil(Sample(e)) /\ IsNil(Default(e)) /\ ~HasTA(e, "nullable")

\* does being fixed extend to this element of a fixed object
RECURSIVE InheritsFixed(_)
InheritsFixed(e) ==
  CASE e.t \in {"array", "string", "number", "boolean"} -> DefinesValue(e)
    [] e.t = "member" -> /\ ~IsVariable(e)
                         /\ IF e.s THEN InheritsFixed(e.c[2]) ELSE InfoHas(e.a, "default")
    [] e.t = "enum" -> IF e.s THEN InheritsFixed(e.c[1]) ELSE InfoHas(e.a, "default")
    [] e.t = "extend" -> InheritsFixed(Merge(e.c).el)
    [] OTHER -> TRUE

RECURSIVE RenderKey(_)
RenderKey(e) ==
  CASE e.t = "string" -> IF e.s THEN e.v
                         ELSE IF ~IsNil(FirstSample(e)) THEN RenderKey(FirstSample(e))
                         ELSE IF InfoHas(e.a, "default") THEN RenderKey(Attr(e, "default")) ELSE ""
    [] e.t = "extend" -> RenderKey(Merge(e.c).el)
    [] OTHER -> ""

\* the content of an element (of a member: its value) is this string
RECURSIVE StrIs(_, _)
StrIs(e, x) == CASE e.t = "member" -> e.s /\ StrIs(e.c[2], x)
                 [] OTHER -> e.t = "string" /\ e.s /\ e.v = x

MemberByKey(c, name) == FirstIdx(c, LAMBDA x : x.t = "member" /\ x.s /\ StrIs(x.c[1], name))
KeyString(e) ==                                            \* GetKeyAsString
  LET k == IF e.s THEN e.c[1] ELSE Nil
  IN  IF IsNil(k) \/ ~k.s THEN ""
      ELSE IF k.t = "string" THEN k.v
      ELSE IF k.t # "extend" THEN ""
      ELSE LET r == Merge(k.c)
           IN  IF r.err THEN "!"
               ELSE IF r.el.t # "string" THEN ""
               ELSE IF r.el.s /\ r.el.v # "" THEN r.el.v
               ELSE LET x == Value(r.el) IN IF IsNil(x) \/ ~x.s THEN "" ELSE x.v

(* --------------------------------------------------------------- traversal *)
\* a path is a sequence of 1-based child positions
RECURSIVE Preorder(_, _)
Preorder(e, path) ==
  <<path>> \o FlattenSeq([i \in 1..Len(e.c) |->
                 IF IsNil(e.c[i]) \/ e.t \in Boxed THEN <<>> ELSE Preorder(e.c[i], Append(path, i))])
WalkAll(e) == Preorder(e, <<>>)
ChildPaths(e) == IF e.t \in Listlike THEN [i \in 1..Len(e.c) |-> <<i>>] ELSE <<>>
RECURSIVE At(_, _)
At(e, path) == IF path = <<>> THEN e ELSE At(e.c[Head(path)], Tail(path))
FilterByName(e, paths, name) == SelectSeq(paths, LAMBDA p : At(e, p).n = name)

RECURSIVE Nodes(_)
Nodes(e) ==
  IF IsNil(e) THEN 0
  ELSE LET sum(f(_), n) == FoldFunction(LAMBDA x, y : x + y, 0, [i \in 1..n |-> f(i)])
       IN  1 + sum(LAMBDA i : Nodes(e.m[i].el), Len(e.m))
             + sum(LAMBDA i : Nodes(e.a[i].el), Len(e.a))
             + sum(LAMBDA i : Nodes(e.c[i]), Len(e.c))

(* --------------------------------------------------------------- cardinality *)
(* a count below 2^32 - 1, as its four bytes from the lowest (TLC's integers have 32 bits with the sign); <<>> stands for "open" *)
Open == <<>>
Card(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
RECURSIVE Carry(_, _, _)
\* the bytes of a sum of columns: <<bytes, what does not fit>>
Carry(cols, k, c) == IF k > Len(cols) THEN <<<<>>, c>>
                     ELSE LET v == cols[k] + c
                              r == Carry(cols, k + 1, v \div 256)
                          IN  <<<<v % 256>> \o r[1], r[2]>>
Fit(cols) == LET r == Carry(cols, 1, 0)
                 low == SubSeq(r[1], 1, 4)
             IN  IF r[2] # 0 \/ (\E k \in 5..Len(r[1]) : r[1][k] # 0) \/ low = <<255, 255, 255, 255>> THEN Open ELSE low
CAdd(x, y) == IF x = Open \/ y = Open THEN Open ELSE Fit([k \in 1..4 |-> x[k] + y[k]])
CMul(x, y) == IF x = Card(0) \/ y = Card(0) THEN Card(0)
              ELSE IF x = Open \/ y = Open THEN Open
              ELSE Fit([k \in 1..7 |-> FoldFunction(LAMBDA p, q : p + q, 0, [i \in 1..4 |-> IF k + 1 - i \in 1..4 THEN x[i] * y[k + 1 - i] ELSE 0])])

RECURSIVE Size(_, _)
SumSize(c, fx)  == FoldLeft(LAMBDA acc, e : CAdd(acc, Size(e, fx)), Card(0), c)
ProdSize(c, fx) == FoldLeft(LAMBDA acc, e : CMul(acc, Size(e, fx)), Card(1), c)
Size(e, fx) ==
  LET fixed == HasTypeAttr(e, "fixed")
      ftype == HasTypeAttr(e, "fixedType")
      nl(x) == IF HasTypeAttr(e, "nullable") THEN CAdd(x, Card(1)) ELSE x
      prim(any) == nl(IF (DefinesValue(e) /\ fx) \/ fixed THEN Card(1) ELSE any)
  IN  CASE e.t = "null" -> Card(1)
        [] e.t \in {"string", "number"} -> prim(Open)
        [] e.t = "boolean" -> prim(Card(2))
        [] e.t = "object" ->
             nl(IF fx \/ fixed \/ ftype THEN (IF e.s THEN ProdSize(e.c, fx \/ fixed) ELSE Card(1)) ELSE Open)
        [] e.t = "member" ->
             IF ~e.s \/ IsNil(e.c[2]) THEN Card(0)
             ELSE nl(CMul(IF IsVariable(e) THEN Open ELSE Card(1), Size(e.c[2], fx)))
        [] e.t = "array" ->
             nl(IF fx \/ fixed THEN (IF e.s THEN ProdSize(e.c, TRUE) ELSE Card(1))
                ELSE IF ftype /\ ~e.s THEN Card(0) ELSE Open)
        [] e.t = "enum" ->
             LET l == OfKind(Attr(e, "enumerations"), "array")
             IN  IF IsNil(l) \/ ~l.s THEN Card(0) ELSE nl(SumSize(l.c, fx \/ fixed))
        [] e.t = "extend" ->
             IF ~e.s THEN Card(0) ELSE LET r == Merge(e.c) IN IF IsNil(r.el) THEN Card(0) ELSE Size(r.el, fx)
        [] e.t = "ref" -> IF InfoHas(e.a, "resolved") THEN Size(Attr(e, "resolved"), fx) ELSE Card(0)
        [] e.t = "holder" -> IF ~e.s \/ IsNil(e.c[1]) THEN Card(0) ELSE Size(e.c[1], fx)
        [] e.t = "select" -> IF ~e.s THEN Card(0) ELSE SumSize(e.c, fx)
        [] e.t = "option" -> IF ~e.s THEN Card(0) ELSE ProdSize(e.c, fx)
        [] OTHER -> Card(0)

\* can the size be computed at all (merging must not fail, references must be resolved)
RECURSIVE Sizeable(_)
Sizeable(e) ==
  /\ (e.t = "extend" => ~Merge(e.c).err /\ (IsNil(Merge(e.c).el) \/ Sizeable(Merge(e.c).el)))
  /\ (e.t = "ref" => InfoHas(e.a, "resolved") /\ Sizeable(Attr(e, "resolved")))
  /\ (e.t = "enum" => (InfoHas(e.a, "enumerations") => Sizeable(Attr(e, "enumerations"))))
  /\ \A i \in 1..Len(e.c) : IsNil(e.c[i]) \/ Sizeable(e.c[i])

(* ---------------------------------------------------------------------- dump *)
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
Title(t) == CASE t = "array" -> "Array" [] t = "object" -> "Object" [] t = "extend" -> "Extend"
              [] t = "option" -> "Option" [] t = "select" -> "Select"
              [] t = "string" -> "String" [] t = "number" -> "Number" [] t = "boolean" -> "Boolean" [] OTHER -> t
DumpVal(e) == IF ~e.s THEN "<empty>"
              ELSE CASE e.t = "string" -> "\"" \o e.v \o "\""
                     [] e.t = "boolean" -> IF e.v = "true" THEN "1" ELSE "0"
                     [] e.t = "ref" -> "&[" \o e.v \o "]"
                     [] OTHER -> e.v
RECURSIVE Dump(_, _), DumpKids(_, _)
DumpInfo(x, d, skip) == FlattenSeq([i \in 1..Len(x) |->
     IF x[i].k \in skip THEN <<>> ELSE <<Spaces(d) \o "- `" \o x[i].k \o "`">> \o Dump(x[i].el, d)])
DumpKids(c, d) == FlattenSeq([i \in 1..Len(c) |-> IF IsNil(c[i]) THEN <<>> ELSE Dump(c[i], d)])
DumpBody(e, d) ==
  CASE e.t = "null" -> <<Spaces(d) \o "- Null">>
    [] e.t \in {"string", "number", "boolean"} -> <<Spaces(d) \o "- " \o Title(e.t) \o " " \o DumpVal(e)>>
    [] e.t = "ref" -> <<Spaces(d) \o "- RefElement " \o DumpVal(e)>>
    [] e.t = "holder" -> <<Spaces(d) \o "- Holder[" \o e.n \o "]">> \o DumpKids(e.c, d + 1)
    [] e.t = "member" -> <<Spaces(d) \o "- MemberElement">> \o DumpKids(e.c, d + 1)
    [] e.t = "enum" -> <<Spaces(d) \o "- EnumElement ">> \o DumpKids(e.c, d + 1)
    [] OTHER -> <<Spaces(d) \o "- " \o Title(e.t) \o "Element">> \o DumpKids(e.c, d + 1)
Dump(e, d) ==
  <<Spaces(d) \o "+ " \o e.n, Spaces(d + 1) \o "- <meta>">> \o DumpInfo(e.m, d + 2, {})
  \o <<Spaces(d + 1) \o "- <attr>">> \o DumpInfo(e.a, d + 2, {"sourceMap"}) \o DumpBody(e, d + 1)
=============================================================================

-------------------------------- MODULE Mson --------------------------------
(* MSON: data structures, as the parser reads them and as the API Elements    *)
(* they become.                                                               *)
(*                                                                            *)
(* In a document they are items (and headers) of these kinds:                 *)
(*   header  "type"  x td       a named type                                  *)
(*   header  "tsec"  c vs       a section of it: Items, Members, Properties,  *)
(*                              Default or Sample                             *)
(*   item    "attributes" td    the attributes of a resource, an action or a  *)
(*                              payload                                       *)
(*   item    "mem"   nm nv kt vs td d   a member: a property (nm, a variable  *)
(*                              one of type kt) or a value                    *)
(*   item    "sec"   c vs       a section of a member                         *)
(*   item    "mix"   x td       the members of type x                         *)
(*   item    "one"              one of the members inside                     *)
EXTENDS Document

(* ----------------------------------------------------- types as they read *)
BaseNames == {"string", "number", "boolean", "array", "enum", "object"}
BaseOfName == [string |-> "P", number |-> "P", boolean |-> "P", array |-> "V", enum |-> "V", object |-> "O"]
Symbol(x) == x # "" /\ x \notin BaseNames
\* of the words in parentheses, those that are attributes
TypeAttrs == {"required", "optional", "fixed", "fixed-type", "sample", "default", "nullable"}
BaseOfType(p, ty) == IF ty \in BaseNames THEN BaseOfName[ty] ELSE IF ty \in DOMAIN p.bases THEN p.bases[ty] ELSE "U"
\* that `who` depends on x, and with it on all that x depends on
AddDep(p, x, who, circ, n) ==
  IF x \notin DOMAIN p.deps THEN Erred(p, eMson, n)
  ELSE IF circ /\ (who = x \/ who \in p.deps[x]) THEN Erred(p, eMson, n)
  ELSE LET d == IF who \in DOMAIN p.deps THEN p.deps ELSE p.deps @@ (who :> {})
       IN  IF x \in d[who] THEN [p EXCEPT !.deps = d]
           ELSE [p EXCEPT !.deps = TLCEval([y \in DOMAIN d |-> IF y = who \/ who \in d[y] THEN d[y] \cup {x} \cup d[x] ELSE d[y]])]
\* the type td says: [td, p]
ReadType(td, n, p) ==
  LET base == BaseOfType(p, td.ty)
      p1 == IF base = "U" /\ Symbol(td.ty) THEN AddDep(p, td.ty, p.ctx, FALSE, n) ELSE p
      other == SelectSeq(td.at, LAMBDA a : a \notin TypeAttrs)
      p2 == FoldLeft(LAMBDA q, a : Warn(q, wIgnore, n), p1, other)
  IN  [td |-> [ty |-> td.ty, nest |-> td.nest, at |-> SelectSeq(td.at, LAMBDA a : a \in TypeAttrs), base |-> base],
       p |-> WarnIf(td.nest # <<>> /\ base \notin {"V", "IV"}, p2, wLogic, n)]
Attrs(td) == {td.at[i] : i \in 1..Len(td.at)}

(* -------------------------------------------------- all types, beforehand *)
\* what a header or the attributes of a resource say about the type called x
Note0(p, x, td, n) ==
  IF x \in DOMAIN p.deps THEN Erred(p, eMson, n)
  ELSE LET nested == IF td.ty \in {"array", "enum"} THEN {td.nest[i] : i \in {j \in 1..Len(td.nest) : Symbol(td.nest[j])}} ELSE {}
           q == [p EXCEPT !.deps = (x :> nested) @@ @]
       IN  IF td.ty = "" THEN [q EXCEPT !.bases = (x :> "IO") @@ @]
           ELSE IF td.ty \in BaseNames THEN [q EXCEPT !.bases = (x :> BaseOfName[td.ty]) @@ @]
           ELSE [q EXCEPT !.inh = (x :> [up |-> td.ty, n |-> n]) @@ @, !.deps[x] = @ \cup {td.ty}]
AttributesOf(bs, i) == {j \in (i + 1)..Len(bs) : bs[j].k = "i" /\ bs[j].s.k = "attributes" /\ \A h \in (i + 1)..j : bs[h].k # "h"}
RECURSIVE Scan(_, _, _, _, _)
\* ctx: "" or "ds" or "resource", whose name is name
Scan(p, bs, i, ctx, name) ==
  IF i > Len(bs) THEN p
  ELSE LET b == bs[i]
           s == b.s
       IN  IF b.k = "h"
           THEN CASE s.k \in {"uri", "named", "muri"} -> Scan(p, bs, i + 1, "resource", IF s.k = "named" THEN s.x ELSE "")
                  [] s.k = "ds" -> Scan(p, bs, i + 1, "ds", "")
                  [] s.k \in {"m", "nm", "nmuri"} -> Scan(p, bs, i + 1, "", "")
                  [] s.k = "type" /\ ctx = "ds" -> Scan(Note0(p, s.x, s.td, b.n), bs, i + 1, ctx, name)
                  [] s.k \in {"group", "tsec"} /\ ctx = "ds" -> Scan(p, bs, i + 1, IF s.k = "tsec" THEN "ds" ELSE "", "")
                  [] OTHER -> Scan(p, bs, i + 1, ctx, name)
           ELSE IF b.k = "i" /\ s.k = "attributes" /\ ctx = "resource" /\ name # "" THEN Scan(Note0(p, name, s.td, b.n), bs, i + 1, ctx, name)
           ELSE Scan(p, bs, i + 1, ctx, name)
\* the types some set of types depends on
RECURSIVE Reached(_, _)
Reached(d, xs) == LET ys == TLCEval(xs \cup UNION {IF x \in DOMAIN d THEN d[x] ELSE {} : x \in xs}) IN IF ys = xs THEN xs ELSE Reached(d, ys)
RECURSIVE BaseUp(_, _)
\* the base of x, inherited: [p, bad]
BaseUp(p, x) ==
  IF x \in DOMAIN p.bases THEN [p |-> p, bad |-> FALSE]
  ELSE LET up == p.inh[x].up
           n == p.inh[x].n
       IN  IF x \in p.deps[x] THEN [p |-> Erred(p, eMson, n), bad |-> TRUE]
           ELSE IF up \notin DOMAIN p.bases /\ up \notin DOMAIN p.inh THEN [p |-> Erred(p, eMson, n), bad |-> TRUE]
           ELSE IF up \in DOMAIN p.bases THEN [p |-> [p EXCEPT !.bases = (x :> p.bases[up]) @@ @], bad |-> FALSE]
           ELSE LET r == BaseUp(p, up)
                IN  IF r.bad \/ r.p.err # <<>> THEN [r EXCEPT !.bad = TRUE] ELSE [p |-> [r.p EXCEPT !.bases = (x :> r.p.bases[up]) @@ @], bad |-> FALSE]
LetterOrder == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J">>
ScanTypes(bs, i, p0) ==
  LET p == Scan(p0, bs, i, "", "")
      all == DOMAIN p.deps \cup UNION {p.deps[x] : x \in DOMAIN p.deps}
      q == [p EXCEPT !.deps = TLCEval([x \in all |-> IF x \in DOMAIN p.deps THEN Reached(p.deps, p.deps[x]) ELSE {}])]
      names == SelectSeq(LetterOrder, LAMBDA x : x \in DOMAIN q.inh) \o SetToSeq(DOMAIN q.inh \ {LetterOrder[j] : j \in 1..Len(LetterOrder)})
  IN  FoldLeft(LAMBDA acc, x : IF acc.bad THEN acc ELSE LET r == BaseUp(acc.p, x) IN [r EXCEPT !.bad = @ \/ r.p.err # <<>>], [p |-> q, bad |-> FALSE], names).p

(* ------------------------------------------------------ members as they read *)
(* a section is [c, x, els, own, n]: "desc" text x; "members"; "sample" and   *)
(* "default", of text x or elements; own, whether it stands in the text       *)
SecOf(c, n) == [c |-> c, x |-> "", els |-> <<>>, own |-> FALSE, n |-> n]
MoreText(t, b) == (IF t = "" THEN "" ELSE TwoBreaks(t) ) \o b.raw
Tell(secs, b) ==
  IF secs = <<>> THEN <<[SecOf("desc", b.n) EXCEPT !.x = b.raw]>>
  ELSE IF Len(secs) = 1 /\ secs[1].c = "desc" THEN <<[secs[1] EXCEPT !.x = MoreText(@, b)]>> ELSE secs
\* the base of something undefined, by what is inside it
Guess(base, b) ==
  IF base # "U" THEN base
  ELSE IF b.k = "i" /\ b.s.k \in {"mem", "mix", "one", "text", "val"} THEN "IO"
  ELSE IF b.k \in {"i", "h"} /\ b.s.k \in {"sec", "tsec"} /\ b.s.c = "Properties" THEN "IO"
  ELSE IF b.k \in {"i", "h"} /\ b.s.k \in {"sec", "tsec"} /\ b.s.c \in {"Default", "Sample"} THEN "IP" ELSE base
IsObj(base) == base \in {"O", "IO"}
IsVal(base) == base \in {"V", "IV"}
IsPri(base) == base \in {"P", "IP"}
LastOf(s) == s[Len(s)]
PutEl(secs, el) == [secs EXCEPT ![Len(secs)].els = Append(@, el)]
SecKind(b) == b.k \in {"i", "h"} /\ b.s.k \in {"sec", "tsec"}
SigRest2(b) == JoinWith(b.ls, "\n")
\* a value of a section that says it in its first line
BareValue(v, n) == [k |-> "val", nm |-> "", nv |-> FALSE, kt |-> NoTd, vs |-> <<v>>, td |-> NoTd, d |-> "", secs |-> <<>>, n |-> n]
Raw(vs) == ValuesText("", vs)
\* what looks like a property where there are none is a value, colon and all
AsValues(s) ==
  LET name == IF s.nv THEN "*" \o s.nm \o "*" ELSE s.nm
      first == name \o ": " \o (IF s.vs[1].v THEN "*" \o s.vs[1].x \o "*" ELSE s.vs[1].x)
  IN  IF s.nm = "" THEN s.vs ELSE IF s.vs = <<>> THEN <<[x |-> s.nm, v |-> s.nv]>> ELSE [s.vs EXCEPT ![1] = [x |-> first, v |-> FALSE]]
\* and what looks like a value where there are properties is the name of one
AsProperty(s) == IF s.nm # "" \/ s.vs = <<>> THEN s ELSE [s EXCEPT !.nm = IF Len(s.vs) = 1 THEN s.vs[1].x ELSE Raw(s.vs), !.nv = Len(s.vs) = 1 /\ s.vs[1].v, !.vs = <<>>]
RECURSIVE ReadMember(_, _, _), ReadInside(_, _, _, _), ReadSection(_, _, _, _), SectionItems(_, _, _, _, _), ReadOneOf(_, _), ReadMixin(_, _)
\* a member, a property when prop is true: [el, p]
ReadMember(b, prop, p0) ==
  LET s == IF prop THEN AsProperty(b.s) ELSE [b.s EXCEPT !.vs = AsValues(b.s)]
      nameless == prop /\ s.nm = "" /\ (s.vs # <<>> \/ s.td.ty # "" \/ s.td.at # <<>> \/ s.d # "")
      t == ReadType(s.td, b.n, WarnIf(nameless, p0, wEmpty, b.n))
      k == IF prop /\ s.nv THEN ReadType(s.kt, b.n, p0) ELSE [td |-> NoTd, p |-> p0]
      t1 == IF prop /\ s.nv THEN ReadType(s.td, b.n, k.p) ELSE t
      td == t1.td
      syms == IF td.ty \in {"array", "enum"} THEN SelectSeq(td.nest, Symbol) ELSE IF Symbol(td.ty) THEN <<td.ty>> ELSE <<>>
      p1 == FoldLeft(LAMBDA q, x : AddDep(q, x, q.ctx, FALSE, b.n), t1.p, syms)
      vs == IF Len(s.vs) > 1 /\ td.base = "P" THEN <<[x |-> Raw(s.vs), v |-> FALSE]>> ELSE s.vs
      base == IF Len(s.vs) > 1 /\ td.base = "U" THEN "IV" ELSE td.base
      secs == IF b.ls = <<>> THEN <<>> ELSE <<[SecOf("desc", b.n) EXCEPT !.x = SigRest2(b)]>>
      r == ReadInside([base |-> base, secs |-> secs, p |-> p1], b.kids, 1, FALSE)
      el == [k |-> IF prop THEN "prop" ELSE "val", nm |-> s.nm, nv |-> s.nv, kt |-> k.td, vs |-> vs,
             td |-> [td EXCEPT !.base = IF r.base = "U" THEN "IP" ELSE r.base], d |-> s.d, secs |-> r.secs, n |-> b.n]
  IN  [el |-> el, p |-> r.p]
\* what is inside a member or a type, from i on: paragraphs that describe it, then members and sections;
\* acc: [base, secs, p], and i is where it ends
ReadInside(acc, bs, i, tells) ==
  IF i > Len(bs) \/ acc.p.stop THEN acc @@ [i |-> i]
  ELSE LET b == bs[i]
           next(a) == ReadInside(a, bs, i + 1, TRUE)
       IN  IF ~tells /\ Plain2(b) THEN ReadInside([acc EXCEPT !.secs = Tell(@, b)], bs, i + 1, FALSE)
           ELSE IF SecKind(b)
           THEN LET base == Guess(acc.base, b)
                    r == ReadSection(b, base, acc.p, bs)
                    a == [base |-> base, secs |-> acc.secs \o r.sec, p |-> r.p]
                    \* the blocks behind the header of a section are in it
                    e == IF b.k = "h" THEN r.i ELSE i + 1
                IN  IF ~r.went /\ b.k = "h" THEN [acc EXCEPT !.p = r.p] @@ [i |-> i] ELSE ReadInside(a, bs, e, TRUE)
           ELSE IF b.k = "h" THEN acc @@ [i |-> i]
           ELSE IF acc.secs # <<>> /\ LastOf(acc.secs).c = "desc" THEN next([acc EXCEPT !.secs = Tell(@, b)])
           ELSE LET base == Guess(acc.base, b)
                    secs == IF acc.secs = <<>> \/ LastOf(acc.secs).c # "members" THEN Append(acc.secs, SecOf("members", 0)) ELSE acc.secs
                    a == [acc EXCEPT !.base = base, !.secs = secs]
                    kind == IF b.k = "i" THEN b.s.k ELSE ""
                IN  CASE kind = "mix" -> (LET m == ReadMixin(b, acc.p)
                                              fits == (IsObj(base) /\ IsObj(m.el.td.base)) \/ (IsVal(base) /\ IsVal(m.el.td.base)) \/ (IsPri(base) /\ IsPri(m.el.td.base)) \/ base = m.el.td.base
                                          IN  next(IF fits THEN [a EXCEPT !.secs = PutEl(@, m.el), !.p = m.p] ELSE [a EXCEPT !.p = Warn(m.p, wLogic, b.n)]))
                      [] kind = "one" -> (IF ~IsObj(base) THEN [a EXCEPT !.p = Warn(acc.p, wLogic, b.n)] @@ [i |-> i]
                                          ELSE LET m == ReadOneOf(b, acc.p) IN next([a EXCEPT !.secs = PutEl(@, m.el), !.p = m.p]))
                      [] kind = "mem" /\ (IsVal(base) \/ IsObj(base)) ->
                           (LET m == ReadMember(b, IsObj(base), acc.p)
                            IN  next([a EXCEPT !.secs = PutEl(@, m.el), !.p = WarnIf(IsObj(m.el.td.base) /\ m.el.vs # <<>>, m.p, wLogic, b.n)]))
                      [] IsPri(base) -> [a EXCEPT !.p = Warn(acc.p, wLogic, b.n)] @@ [i |-> i]
                      [] OTHER -> next([a EXCEPT !.p = Warn(acc.p, wIgnore, b.n)])
\* a section: [sec (one or none), went, i, p]; bs are the blocks b is among
ReadSection(b, base, p, bs) ==
  LET s == b.s
      at == CHOOSE j \in 1..Len(bs) : bs[j].n = b.n
      bad == (s.c \in {"Items", "Members"} /\ ~IsVal(base)) \/ (s.c = "Properties" /\ ~IsObj(base))
      kind == CASE s.c = "Default" -> "default" [] s.c = "Sample" -> "sample" [] OTHER -> "members"
      said == kind # "members" /\ s.vs # <<>>
      p1 == WarnIf(said /\ IsObj(base), p, wLogic, b.n)
      els == IF said /\ IsVal(base) THEN [j \in 1..Len(s.vs) |-> BareValue(s.vs[j], b.n)] ELSE <<>>
      sec == [SecOf(kind, b.n) EXCEPT !.x = (IF said /\ IsPri(base) THEN Raw(s.vs) ELSE "") \o (IF kind # "members" /\ IsPri(base) /\ b.k = "i" /\ b.ls # <<>> THEN SigRest2(b) ELSE ""),
                                      !.els = els, !.own = TRUE]
      r == SectionItems([sec |-> sec, base |-> base, what |-> s.c, p |-> p1], IF b.k = "h" THEN bs ELSE b.kids, IF b.k = "h" THEN at + 1 ELSE 1, base, s.c)
  IN  IF bad THEN [sec |-> <<>>, went |-> FALSE, i |-> at, p |-> Warn(p, wLogic, b.n)]
      ELSE [sec |-> <<r.sec>>, went |-> TRUE, i |-> r.i, p |-> r.p]
SectionItems(acc, bs, i, base, what) ==
  IF i > Len(bs) \/ acc.p.stop \/ bs[i].k = "h" THEN acc @@ [i |-> i]
  ELSE LET b == bs[i]
           kind == IF b.k = "i" THEN b.s.k ELSE ""
           put(el, p) == SectionItems([acc EXCEPT !.sec.els = Append(@, el), !.p = p], bs, i + 1, base, what)
           halt(p) == [acc EXCEPT !.p = p] @@ [i |-> i]
       IN  IF what \in {"Items", "Members", "Properties"}
           THEN CASE kind = "mix" -> (LET m == ReadMixin(b, acc.p) IN put(m.el, m.p))
                  [] kind = "one" -> (IF what # "Properties" THEN halt(Warn(acc.p, wLogic, b.n)) ELSE LET m == ReadOneOf(b, acc.p) IN put(m.el, m.p))
                  [] kind = "mem" -> (LET m == ReadMember(b, what = "Properties", acc.p) IN put(m.el, m.p))
                  [] kind = "sec" -> halt(acc.p)
                  [] OTHER -> halt(Thrown(acc.p, eBusiness, b.n))
           ELSE IF kind \in {"mix", "one"} THEN halt(Warn(acc.p, wLogic, b.n))
           ELSE IF IsPri(base) THEN SectionItems([acc EXCEPT !.sec.n = IF acc.sec.x = "" THEN b.n ELSE @, !.sec.x = (IF @ = "" THEN "" ELSE TwoBreaks(@)) \o b.src], bs, i + 1, base, what)
           ELSE IF kind = "mem" THEN LET m == ReadMember(b, IsObj(base), acc.p) IN put(m.el, m.p)
           ELSE halt(acc.p)
ReadMixin(b, p) ==                              \* [el, p]
  LET t == ReadType([b.s.td EXCEPT !.ty = b.s.x], b.n, p)
      p1 == WarnIf(t.td.base \in {"P", "U"}, t.p, wFormat, b.n)
  IN  [el |-> [k |-> "mix", td |-> t.td, n |-> b.n], p |-> IF Symbol(b.s.x) THEN AddDep(p1, b.s.x, p1.ctx, TRUE, b.n) ELSE p1]
RECURSIVE OneOfItems(_, _, _)
OneOfItems(acc, bs, i) ==
  IF i > Len(bs) \/ acc.p.stop THEN acc
  ELSE LET b == bs[i]
           kind == IF b.k = "i" THEN b.s.k ELSE ""
           put(el, p) == OneOfItems([els |-> Append(acc.els, el), p |-> p], bs, i + 1)
       IN  CASE kind = "mix" -> (LET m == ReadMixin(b, acc.p) IN put(m.el, m.p))
             [] kind = "one" -> (LET m == ReadOneOf(b, acc.p) IN put(m.el, m.p))
             [] kind = "sec" /\ b.s.c = "Properties" -> (LET r == ReadSection(b, "O", acc.p, bs) IN put([k |-> "group", els |-> r.sec[1].els, n |-> b.n], r.p))
             [] kind = "sec" -> acc
             [] kind = "mem" -> (LET m == ReadMember(b, TRUE, acc.p) IN put(m.el, m.p))
             [] OTHER -> OneOfItems([acc EXCEPT !.p = Warn(acc.p, wIgnore, b.n)], bs, i + 1)
ReadOneOf(b, p) ==
  LET r == OneOfItems([els |-> <<>>, p |-> p], b.kids, 1)
  IN  [el |-> [k |-> "one", els |-> r.els, n |-> b.n], p |-> WarnIf(r.els = <<>>, r.p, wEmpty, b.n)]

\* attributes of something that is called name (or ""): [x, p]
ReadAttributes(b, name, p) ==
  LET t == ReadType(b.s.td, b.n, [p EXCEPT !.ctx = name])
      td == [t.td EXCEPT !.base = IF @ = "U" THEN "IO" ELSE @]
      secs == IF b.ls = <<>> THEN <<>> ELSE <<[SecOf("desc", b.n) EXCEPT !.x = SigRest2(b)]>>
      r == ReadInside([base |-> td.base, secs |-> secs, p |-> t.p], b.kids, 1, FALSE)
  IN  [x |-> [name |-> name, td |-> [td EXCEPT !.base = r.base], secs |-> r.secs, n |-> b.n], p |-> [r.p EXCEPT !.ctx = p.ctx]]
\* a named type at i: what Out tells
ReadNamedType(bs, i, p) ==
  LET b == bs[i]
      t == ReadType(b.s.td, b.n, p)
      td == [t.td EXCEPT !.base = IF @ = "U" THEN "IO" ELSE @]
      r == ReadInside([base |-> td.base, secs |-> <<>>, p |-> [t.p EXCEPT !.ctx = b.s.x]], bs, i + 1, FALSE)
  IN  Out([name |-> b.s.x, td |-> [td EXCEPT !.base = r.base], secs |-> r.secs, n |-> b.n], r.i, [r.p EXCEPT !.ctx = ""])
IsNamedType(b) == b.k = "h" /\ b.s.k \in {"type", "text", "m", "nm", "typo"}
NoAttributes(x) == x.td.at = <<>> /\ x.td.ty = "" /\ x.td.nest = <<>> /\ x.name = "" /\ x.secs = <<>>

(* ------------------------------------------------------ as API Elements *)
(* p carries the kinds of the named types (kinds), and what is wrong (notes)  *)
KindOf(p, ty) == IF ty = "" THEN "" ELSE IF ty \in BaseNames THEN ty ELSE IF ty \in DOMAIN p.kinds THEN p.kinds[ty] ELSE ""
\* nothing is noted any more once something was thrown
Note4(p, n) == [p EXCEPT !.late = IF p.stop \/ \E i \in 1..Len(@) : @[i] = n THEN @ ELSE Append(@, n)]
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ OneOf("0123456789", CharAt(t, i)) THEN DigitsEnd(t, i + 1) ELSE i
\* a number of JSON, blanks behind it not counting
IsNumber(y) ==
  LET x == TrimR(y)
      t == IF x # "" /\ CharAt(x, 1) = "-" THEN From(x, 2) ELSE x
      end(i) == i = Len(t) + 1
      is(i, cs) == i <= Len(t) /\ OneOf(cs, CharAt(t, i))
      e1 == IF is(1, "0") THEN 2 ELSE DigitsEnd(t, 1)
      e2 == IF is(e1, ".") THEN DigitsEnd(t, e1 + 1) ELSE e1
      f  == IF is(e2, "eE") THEN (IF is(e2 + 1, "+-") THEN e2 + 2 ELSE e2 + 1) ELSE e2
      e3 == IF f > e2 THEN DigitsEnd(t, f) ELSE e2
  IN  e1 > 1 /\ e2 # e1 + 1 /\ (f > e2 => e3 > f) /\ end(e3)
Readable2(k, x) == CASE k = "number" -> IsNumber(x) [] k = "boolean" -> x \in {"true", "false"} [] OTHER -> TRUE
Prim2(k, x) == MkV(k, IF k = "number" THEN TrimR(x) ELSE x)
Named3(e, x) == IF x = "" THEN e ELSE [e EXCEPT !.n = x]
\* the element that a value stands for: a sample, a value or a type of that name
MakeEl(k, x, how) ==
  IF k \in {"string", "number", "boolean"}
  THEN CASE x = "" -> Empty(k)
         [] how = "sample" -> [Empty(k) EXCEPT !.a = <<[k |-> "samples", el |-> IF Readable2(k, x) THEN MkC("array", <<Prim2(k, x)>>) ELSE Empty("array")]>>]
         [] how = "value" -> IF Readable2(k, x) THEN Prim2(k, x) ELSE Empty(k)
         [] OTHER -> Named3(Empty(k), x)
  ELSE IF how = "sample" THEN Named3(Str(x), "generic") ELSE Named3(Empty(k), x)
NestKind(td) == IF Len(td.nest) = 1 /\ td.nest[1] \in {"string", "number", "boolean"} THEN td.nest[1] ELSE "string"
AttrWords == <<"required", "optional", "fixed", "fixed-type", "nullable">>
AttrsEl(td) ==
  LET ws == SelectSeq(AttrWords, LAMBDA w : w \in Attrs(td))
  IN  MkC("array", [i \in 1..Len(ws) |-> Str(IF ws[i] = "fixed-type" THEN "fixedType" ELSE ws[i])])
WithAttrs(e, td) == LET x == AttrsEl(td) IN IF x.c = <<>> THEN e ELSE [e EXCEPT !.a = InfoSet(@, "typeAttributes", x)]
WithText(e, ds) == LET xs == SelectSeq(ds, LAMBDA d : d # "") IN IF xs = <<>> THEN e ELSE [e EXCEPT !.m = InfoSet(@, "description", Str(JoinWith(xs, "\n")))]
Prims == {"string", "number", "boolean"}
FixedEl(e) == IF IsLiteral(e) THEN [e EXCEPT !.a = AppendInfo(@, "typeAttributes", Str("fixed"))] ELSE e
AllFixed(els) == [i \in 1..Len(els) |-> FixedEl(els[i])]
\* what is known of an element: inline values, values, samples, defaults, hints (each a sequence of [x, els, n]) and descriptions
NoData == [inl |-> <<>>, val |-> <<>>, smp |-> <<>>, def |-> <<>>, hint |-> <<>>, desc |-> <<>>]
InfoOf(x, els, n) == [x |-> x, els |-> els, n |-> n]
\* hints: the types an array is made of; n: where a type no one knows is noted
Hints(d, kind, td, n, p) ==                     \* [d, p]
  IF kind \in Prims THEN [d |-> d, p |-> p]
  ELSE LET r == FoldLeft(LAMBDA acc, y :
                  IF y \in BaseNames THEN [acc EXCEPT !.els = Append(@, Empty(y))]
                  ELSE IF y = "" THEN [acc EXCEPT !.els = Append(@, Empty("object"))]
                  ELSE IF KindOf(p, y) = "" THEN [acc EXCEPT !.p = Note4(acc.p, Append(n, y))]
                  ELSE [acc EXCEPT !.els = Append(@, MakeEl(KindOf(p, y), y, "element"))], [els |-> <<>>, p |-> p], td.nest)
       IN  [d |-> [d EXCEPT !.hint = Append(@, InfoOf("", r.els, n))], p |-> r.p]
RECURSIVE Convert(_, _, _), MembersEls(_, _, _), SectionsData(_, _, _, _, _), FromValue(_, _, _), OneEl(_, _, _)
\* the elements of members: [els, p]
MembersEls(ms, dflt, p) ==
  FoldLeft(LAMBDA acc, m : LET r == OneEl(m, dflt, acc.p) IN [els |-> acc.els \o r.els, p |-> r.p], [els |-> <<>>, p |-> p], ms)
\* the element of something undefined
Undefined2(m, dflt) == IF Len(m.vs) > 1 THEN "array"
                       ELSE IF Symbol(m.td.ty) \/ (\E i \in 1..Len(m.secs) : m.secs[i].c = "members") THEN "object" ELSE dflt
Clashes(td) == LET a == Attrs(td) IN {c \in {<<"fixed", "optional">>, <<"required", "optional">>, <<"default", "sample">>, <<"fixed", "fixed-type">>} : c[1] \in a /\ c[2] \in a}
\* a note is its place and its text
CheckClash(td, n, p) == FoldLeft(LAMBDA q, c : Note4(q, <<n, c[1] \o c[2]>>), p, SetToSeq(Clashes(td)))
NameOf(m, p) ==                                  \* [el, bad]
  IF ~m.nv THEN [el |-> Str(m.nm), bad |-> FALSE]
  ELSE [el |-> Named3(Str(m.nm), IF Symbol(m.kt.ty) THEN m.kt.ty ELSE ""),
        bad |-> (m.kt.ty # "" \/ m.kt.nest # <<>> \/ m.kt.at # <<>>) /\ KindOf(p, m.kt.ty) # "string"]
OneEl(m, dflt, p0) ==                           \* [els, p]
  CASE m.k = "mix" -> [els |-> <<[MkV("ref", m.td.ty) EXCEPT !.a = <<[k |-> "path", el |-> Str("content")]>>]>>, p |-> p0]
    [] m.k = "one" -> (LET r == FoldLeft(LAMBDA acc, o :
                                  IF o.k = "group" THEN LET g == MembersEls(o.els, "string", acc.p) IN [os |-> Append(acc.os, MkC("option", g.els)), p |-> g.p]
                                  ELSE LET g == OneEl(o, "string", acc.p) IN [os |-> Append(acc.os, IF g.els = <<>> THEN Empty("option") ELSE MkC("option", g.els)), p |-> g.p],
                                [os |-> <<>>, p |-> p0], m.els)
                       IN  [els |-> <<IF r.os = <<>> THEN Empty("select") ELSE MkC("select", r.os)>>, p |-> r.p])
    [] OTHER ->
       (LET p1 == CheckClash(m.td, m.n, p0)
            k0 == KindOf(p1, m.td.ty)
            k == IF k0 = "" THEN Undefined2(m, dflt) ELSE k0
            key == NameOf(m, p1)
        IN  IF m.k = "prop" /\ m.nm = "" THEN [els |-> <<>>, p |-> p1]
            ELSE IF m.k = "prop" /\ key.bad THEN [els |-> <<>>, p |-> Thrown(p1, eMson, m.n)]
            ELSE LET r == FromValue(m, k, p1)
                     block == SelectSeq(m.secs, LAMBDA s : s.c = "desc")
                     texts == [i \in 1..Len(block) |-> block[i].x]
                     told == IF m.d = "" THEN texts ELSE <<IF texts = <<>> THEN m.d ELSE m.d \o "\n">> \o texts
                     e0 == MkC("member", <<key.el, r.el>>)
                     e1 == IF m.nv THEN [e0 EXCEPT !.a = <<[k |-> "variable", el |-> MkV("boolean", "true")]>>] ELSE e0
                 IN  IF m.k = "prop" THEN [els |-> <<WithText(WithAttrs(e1, m.td), told)>>, p |-> r.p]
                     ELSE [els |-> <<WithText(WithAttrs(r.el, m.td), r.desc)>>, p |-> r.p])
\* the value of a member of the kind k: [el, desc, p]
FromValue(m, k, p) ==
  LET els == [i \in 1..Len(m.vs) |-> MakeEl(NestKind(m.td), m.vs[i].x, IF k # "enum" /\ m.vs[i].v THEN "sample" ELSE "value")]
      info == IF k \in Prims THEN InfoOf(m.vs[1].x, <<>>, m.n) ELSE InfoOf("", IF k = "enum" THEN AllFixed(els) ELSE els, m.n)
      a == Attrs(m.td)
      bare(q, w) == IF w \in a THEN Note4(q, <<m.n, "no value for " \o w>>) ELSE q
      d0 == IF m.vs = <<>> THEN NoData
            ELSE IF "default" \in a THEN [NoData EXCEPT !.def = <<info>>]
            ELSE IF "sample" \in a \/ (k \notin {"array", "object"} /\ m.vs[1].v) THEN [NoData EXCEPT !.smp = <<info>>]
            ELSE [NoData EXCEPT !.inl = <<info>>]
      p1 == IF m.vs = <<>> THEN bare(bare(p, "default"), "sample") ELSE p
      d1 == [d0 EXCEPT !.desc = IF m.d = "" THEN <<>> ELSE <<m.d>>]
      h == IF m.vs = <<>> \/ Len(m.td.nest) > 1 THEN Hints(d1, k, m.td, <<0, "hint">>, p1) ELSE [d |-> d1, p |-> p1]
      x == IF IsObj(m.td.base) THEN [d |-> NoData, p |-> p] ELSE h
      s == SectionsData(x.d, m.secs, k, NestKind(m.td), x.p)
      r == Convert(Named3(Empty(k), IF Symbol(m.td.ty) THEN m.td.ty ELSE ""), s.d, s.p)
  IN  [el |-> r.el, desc |-> s.d.desc, p |-> r.p]
\* what the sections say: [d, p]
SectionsData(d0, secs, k, dflt, p0) ==
  FoldLeft(LAMBDA acc, s :
    LET d == acc.d
    IN  IF s.c = "desc" THEN [acc EXCEPT !.d.desc = Append(@, s.x)]
        ELSE LET r == IF k \in Prims THEN [els |-> <<>>, p |-> acc.p] ELSE MembersEls(s.els, dflt, acc.p)
                 info == InfoOf(s.x, IF k = "enum" THEN AllFixed(r.els) ELSE r.els, IF s.own THEN s.n ELSE 0)
                 full == s.x # "" \/ s.els # <<>>
             IN  [p |-> r.p, d |-> CASE s.c = "members" -> IF k \in Prims THEN d ELSE [d EXCEPT !.val = Append(@, info)]
                                     [] ~full -> d
                                     [] s.c = "sample" -> [d EXCEPT !.smp = Append(@, info)]
                                     [] OTHER -> [d EXCEPT !.def = Append(@, info)]],
    [d |-> d0, p |-> p0], secs)
AllEls(infos) == Concat([i \in 1..Len(infos) |-> infos[i].els])
SameEl(x, y) == TolerantEq(x, y, {"sourceMap"}, {"description"})
AmongEls(x, els) == \E i \in 1..Len(els) : SameEl(x, els[i])
\* adds the elements to those listed, without those among them; [els, p]
ListUp(acc, els, infos, tells) ==
  LET n == IF infos = <<>> THEN 0 ELSE LET at == SelectSeq(infos, LAMBDA i : i.n # 0) IN IF at = <<>> THEN 0 ELSE at[1].n
  IN  FoldLeft(LAMBDA a, e : IF ~AmongEls(e, a.els) THEN [a EXCEPT !.els = Append(@, e)] ELSE IF tells THEN [a EXCEPT !.p = Note4(@, <<n, "twice">>)] ELSE a, acc, els)
Invalid(k, infos, p) == FoldLeft(LAMBDA q, i : IF Readable2(k, i.x) THEN q ELSE Note4(q, <<i.n, "not a " \o k>>), p, infos)
PushAll(k, els) == IF k = "object" THEN FoldLeft(LAMBDA acc, e : ObjPush(acc, e), <<>>, els) ELSE els
FirstSingle(infos) == infos # <<>> /\ Len(infos[1].els) = 1 /\ infos[1].els[1].s
\* the element with all that: [el, p]
Convert(e, d, p) ==
  CASE e.t \in Prims ->
         (LET bad == FoldLeft(LAMBDA q, xs : Invalid(e.t, xs, q), p, <<d.inl, d.smp, d.def>>)
              x == d.inl[1].x
              prim(i) == IF Readable2(e.t, i.x) THEN Prim2(e.t, i.x) ELSE Empty(e.t)
              e1 == IF d.inl = <<>> THEN e ELSE [e EXCEPT !.s = TRUE, !.v = IF Readable2(e.t, x) THEN Prim2(e.t, x).v ELSE DefVal(e.t)]
              e2 == IF d.smp = <<>> THEN e1 ELSE [e1 EXCEPT !.a = InfoSet(@, "samples", MkC("array", [i \in 1..Len(d.smp) |-> prim(d.smp[i])]))]
          IN  [el |-> IF d.def = <<>> THEN e2 ELSE [e2 EXCEPT !.a = InfoSet(@, "default", prim(LastOf(d.def)))], p |-> bad])
    [] e.t = "enum" ->
         (LET e1 == IF FirstSingle(d.inl) THEN [e EXCEPT !.s = TRUE, !.c = d.inl[1].els]
                    ELSE IF FirstSingle(d.val) THEN [e EXCEPT !.s = TRUE, !.c = d.val[1].els] ELSE e
              vals == AllEls(d.val)
              inl == SelectSeq(AllEls(d.inl), LAMBDA x : ~\E i \in 1..Len(vals) : SameEl(vals[i], x))
              l1 == ListUp([els |-> <<>>, p |-> p], inl, d.inl, TRUE)
              l2 == ListUp(l1, vals, d.val, TRUE)
              l3 == ListUp(l2, AllEls(d.smp), d.smp, FALSE)
              l4 == ListUp(l3, AllEls(d.def), d.def, FALSE)
              l5 == ListUp(l4, AllEls(d.hint), <<>>, TRUE)
              e2 == IF l5.els = <<>> THEN e1 ELSE [e1 EXCEPT !.a = InfoSet(@, "enumerations", MkC("array", AllFixed(l5.els)))]
              smp == AllEls(d.smp)
              e3 == IF smp = <<>> THEN e2 ELSE [e2 EXCEPT !.a = InfoSet(@, "samples", MkC("array", [i \in 1..Len(smp) |-> MkC("enum", <<smp[i]>>)]))]
              def == AllEls(d.def)
              many == d.def # <<>> /\ (Len(d.def) > 1 \/ Len(d.def[1].els) > 1)
              p1 == IF many THEN Note4(l5.p, <<d.def[1].n, "defaults">>) ELSE l5.p
          IN  [el |-> IF d.def = <<>> THEN e3 ELSE [e3 EXCEPT !.a = InfoSet(@, "default", IF def = <<>> THEN Empty("enum") ELSE MkC("enum", <<LastOf(def)>>))], p |-> p1])
    [] OTHER ->
         (LET all == AllEls(d.hint) \o AllEls(d.inl) \o AllEls(d.val)
              list(i) == MkC(e.t, PushAll(e.t, i.els))
              e1 == IF all = <<>> THEN e ELSE [e EXCEPT !.s = TRUE, !.c = PushAll(e.t, all)]
              e2 == IF d.smp = <<>> THEN e1 ELSE [e1 EXCEPT !.a = InfoSet(@, "samples", MkC("array", [i \in 1..Len(d.smp) |-> list(d.smp[i])]))]
          IN  [el |-> IF d.def = <<>> THEN e2 ELSE [e2 EXCEPT !.a = InfoSet(@, "default", list(LastOf(d.def)))], p |-> p])
\* the element of a named type or of attributes: [el, p]
TypeEl(x, p) ==
  LET k0 == KindOf(p, x.td.ty)
      k == IF k0 = "" THEN "object" ELSE k0
      e0 == Named3(Empty(k), IF Symbol(x.td.ty) THEN x.td.ty ELSE "")
      e1 == IF x.name = "" THEN e0 ELSE [e0 EXCEPT !.m = <<[k |-> "id", el |-> Str(x.name)]>>]
      h == Hints(NoData, k, x.td, <<x.n, "hint">>, p)
      s == SectionsData(h.d, x.secs, k, NestKind(x.td), h.p)
      r == Convert(WithText(WithAttrs(e1, x.td), s.d.desc), s.d, s.p)
  IN  [el |-> r.el, p |-> r.p]
\* all named types of a document: [reg, p]
RECURSIVE KindUp(_, _, _)
KindUp(ts, x, seen) ==
  LET i == FirstIdx(ts, LAMBDA t : t.name = x)
  IN  IF i = 0 \/ x \in seen THEN ""
      ELSE IF ts[i].td.ty \in BaseNames THEN ts[i].td.ty
      ELSE IF ts[i].td.ty = "" THEN "" ELSE KindUp(ts, ts[i].td.ty, seen \cup {x})
\* the names a type stands on: those of its members, and all that these stand on
RECURSIVE StandsOn(_), ElNames(_), LessText(_, _, _)
StandsOn(secs) == UNION {UNION {ElNames(secs[i].els[j]) : j \in 1..Len(secs[i].els)} : i \in {x \in 1..Len(secs) : secs[x].c # "desc"}}
SymbolSet(x) == IF Symbol(x) THEN {x} ELSE {}
ElNames(el) ==
  CASE el.k = "mix" -> SymbolSet(el.td.ty)
    [] el.k = "prop" -> IF Symbol(el.td.ty) THEN {el.td.ty} ELSE IF el.nv /\ Symbol(el.kt.ty) THEN {el.kt.ty}
                        ELSE IF el.td.nest # <<>> THEN UNION {SymbolSet(el.td.nest[i]) : i \in 1..Len(el.td.nest)} ELSE StandsOn(el.secs)
    [] el.k = "val" -> IF Symbol(el.td.ty) THEN {el.td.ty} ELSE StandsOn(el.secs)
    [] OTHER -> {}
LessText(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessText(a, b, i + 1)
\* types in the order they are made: what others stand on is first, then by name
Sorted4(ts) ==
  LET names == {ts[i].name : i \in 1..Len(ts)}
      of(x) == ts[FirstIdx(ts, LAMBDA t : t.name = x)]
      direct == TLCEval([x \in names |-> StandsOn(of(x).secs)])
      members == TLCEval([x \in names |-> Reached(direct, direct[x])])
      parent == TLCEval([x \in {y \in names : Symbol(of(y).td.ty)} |-> {of(x).td.ty}])
      above == TLCEval([x \in names |-> Reached(parent, {x})])
      on(x, y) == y \in above[x] \/ y \in members[x]
      octets == TLCEval([x \in names |-> OctetsOf(x)])
      before(x, y) == ~on(x, y) /\ (on(y, x) \/ LessText(octets[x], octets[y], 1))
      RECURSIVE place(_, _)
      place(l, t) == IF l = <<>> \/ ~before(t.name, LastOf(l).name) THEN Append(l, t) ELSE Append(place(SubSeq(l, 1, Len(l) - 1), t), LastOf(l))
  IN  FoldLeft(LAMBDA l, t : IF l # <<>> /\ before(t.name, l[1].name) THEN <<t>> \o l ELSE place(l, t), <<>>, ts)
Register(given, p0) ==
  LET ts == TLCEval(Sorted4(given))
      kind(x) == LET k == KindUp(ts, x, {}) IN IF k = "" THEN "object" ELSE k
      p == p0 @@ [late |-> <<>>, kinds |-> TLCEval([x \in {ts[i].name : i \in 1..Len(ts)} |-> kind(x)])]
      taken == SelectSeq(ts, LAMBDA t : t.name \in Reserved)
      r == FoldLeft(LAMBDA acc, t : IF t.name = "" THEN acc ELSE LET e == TypeEl(t, acc.p) IN [reg |-> Append(acc.reg, [k |-> t.name, el |-> e.el]), p |-> e.p],
                    [reg |-> BaseReg, p |-> p], ts)
  IN  IF taken # <<>> THEN [reg |-> BaseReg, p |-> Thrown(p, eMson, taken[1].n)] ELSE r
=============================================================================

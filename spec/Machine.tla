------------------------------ MODULE Machine ------------------------------
(* The state machine of a client of the element library.                     *)
(*                                                                           *)
(* State: `slots`, a sequence of owned element trees (Nil if empty), and     *)
(* `reg`, the registry of named types.  An operation is a record with the    *)
(* field op and its arguments; Apply gives the state after it and what it    *)
(* returns.  Elements are values here, so that whatever one operation does   *)
(* to one tree can by construction never be seen through another: that the   *)
(* implementation, which works on shared pointers and copies, behaves like   *)
(* these values is what replaying and trace checking establish.              *)
EXTENDS Elements

CONSTANT NSlots

\* ------------------------------------------------------------------- paths
RECURSIVE Locate(_, _), Update(_, _, _)
Step(e, w, i) == CASE w = "m" -> e.m[i].el [] w = "a" -> e.a[i].el [] OTHER -> e.c[i]
Locate(e, p) == IF p = <<>> THEN e ELSE Locate(Step(e, p[1][1], p[1][2]), Tail(p))
Update(e, p, x) ==
  IF p = <<>> THEN x
  ELSE LET w == p[1][1]
           i == p[1][2]
           y == Update(Step(e, w, i), Tail(p), x)
       IN  CASE w = "m" -> [e EXCEPT !.m[i].el = y]
             [] w = "a" -> [e EXCEPT !.a[i].el = y]
             [] OTHER   -> [e EXCEPT !.c[i] = y]

Dst(o, sl) == Locate(sl[o.d], o.p)
Src(o, sl) == Locate(sl[o.s], o.q)
Info(e, w) == IF w = "m" THEN e.m ELSE e.a
WithInfo(e, w, x) == IF w = "m" THEN [e EXCEPT !.m = x] ELSE [e EXCEPT !.a = x]

\* ------------------------------------------------------------------ results
NoRes == [none |-> TRUE]
Out(sl, rg, res) == [slots |-> sl, reg |-> rg, res |-> res]
PutAt(o, sl, e) == [sl EXCEPT ![o.d] = Update(sl[o.d], o.p, e)]
PutSlot(sl, d, e) == [sl EXCEPT ![d] = e]

Upto(n) == [i \in 1..n |-> i]
SetContent(e, lit) == [e EXCEPT !.s = TRUE, !.v = lit.v, !.c = lit.c]

\* ------------------------------------------------------------------ ownership
TreeOps == {"lit", "drop", "clone", "clonet", "copy", "move", "assign", "massign", "setdata", "setdef", "name", "mk", "reserved"}
Made(o) ==
  LET base == CASE o.how \in {"empty", "new"} -> Empty(o.t)
                [] o.how \in {"default", "named", "gen"} -> MkSet(o.t)
                [] OTHER -> MkV(o.t, o.x)
  IN  IF o.how \in {"named", "primt"} THEN [base EXCEPT !.n = o.n] ELSE base
ApplyTree(o, sl, rg) ==
  CASE o.op = "lit"   -> Out(PutSlot(sl, o.d, o.el), rg, <<>>)
    [] o.op = "drop"  -> Out(PutSlot(sl, o.d, Nil), rg, <<>>)
    [] o.op \in {"clone", "clonet"} -> Out(PutSlot(sl, o.d, Clone(Src(o, sl), o.f)), rg, <<>>)
    [] o.op = "copy"  -> Out(PutSlot(sl, o.d, Src(o, sl)), rg, <<>>)
    [] o.op = "move"  -> Out(PutSlot(PutSlot(sl, o.s, Nil), o.d, sl[o.s]), rg, <<>>)
    [] o.op = "assign" -> Out(PutAt(o, sl, Src(o, sl)), rg, <<>>)
    [] o.op = "massign" -> Out(PutSlot(PutAt(o, sl, sl[o.s]), o.s, Nil), rg, <<>>)
    [] o.op = "setdata" -> Out(PutAt(o, sl, SetContent(Dst(o, sl), o.el)), rg, <<>>)
    [] o.op = "setdef" -> Out(PutAt(o, sl, SetContent(Dst(o, sl), MkSet(Dst(o, sl).t))), rg, <<>>)
    [] o.op = "name"  -> Out(PutAt(o, sl, [Dst(o, sl) EXCEPT !.n = o.x]), rg, <<>>)
    [] o.op = "mk"    -> Out(PutSlot(sl, o.d, Made(o)), rg, <<>>)
    [] o.op = "reserved" -> Out(sl, rg, [b |-> o.x \in Reserved, b2 |-> o.x \in Reserved])

\* --------------------------------------------------------- meta and attributes
InfoOps == {"iset", "isetc", "ierase", "ieraseat", "iclaim", "iclaimat", "iclear", "icopy", "imove", "iclone", "iswap",
            "inew", "inewm", "ifind"}
KeptOnSet(x, k) == IF InfoHas(x, k) THEN [Upto(Len(x)) EXCEPT ![InfoIdx(x, k)] = 0] ELSE Append(Upto(Len(x)), 0)
KeptOnErase(x, k) == SelectSeq(Upto(Len(x)), LAMBDA i : x[i].k # k)
ApplyInfo(o, sl, rg) ==
  LET e == Dst(o, sl)
      x == Info(e, o.w)
      put(y) == PutAt(o, sl, WithInfo(e, o.w, y))
      el == IF o.op = "isetc" THEN Src(o, sl) ELSE o.el
      y == Info(Src(o, sl), o.u)
      same == o.d = o.s /\ o.p = o.q /\ o.w = o.u
      take(s, z) == [s EXCEPT ![o.s] = Update(s[o.s], o.q, WithInfo(Locate(s[o.s], o.q), o.u, z))]
  IN
  CASE o.op \in {"iset", "isetc"} -> Out(put(InfoSet(x, o.k, el)), rg, [b |-> TRUE, kept |-> KeptOnSet(x, o.k)])
    [] o.op = "ierase" -> Out(put(InfoErase(x, o.k)), rg, [kept |-> KeptOnErase(x, o.k)])
    [] o.op = "ieraseat" -> Out(put(InfoDrop(x, o.i)), rg, [kept |-> RemoveAt(Upto(Len(x)), o.i)])
    [] o.op = "iclaim" -> LET i == InfoIdx(x, o.k)
                          IN  Out(PutSlot(put(InfoClaim(x, o.k)), o.j, InfoGet(x, o.k)), rg,
                                  [b |-> TRUE, kept |-> IF i = 0 THEN Upto(Len(x)) ELSE RemoveAt(Upto(Len(x)), i)])
    [] o.op = "iclaimat" -> Out(PutSlot(put(InfoDrop(x, o.i)), o.j, x[o.i].el), rg,
                                [b |-> TRUE, kept |-> RemoveAt(Upto(Len(x)), o.i)])
    [] o.op = "iclear" -> Out(put(<<>>), rg, [kept |-> <<>>])
    [] o.op \in {"icopy", "inew"} -> Out(put(y), rg, <<>>)
    [] o.op \in {"imove", "inewm"} -> Out(IF same THEN sl ELSE take(put(y), <<>>), rg, <<>>)
    [] o.op = "iclone" -> Out(put(x \o y), rg, <<>>)
    [] o.op = "iswap" -> Out(take(put(y), x), rg, <<>>)
    [] o.op = "ifind" -> LET i == InfoIdx(x, o.k)
                         IN  Out(sl, rg, [n |-> i, n2 |-> i, len |-> Len(x), b |-> x = <<>>, it |-> Len(x), kept |-> Upto(Len(x))])

\* ------------------------------------------------------------------ containers
ListOps == {"push", "pushs", "ins", "inss", "era", "erange", "clr", "lst", "take", "addm", "find", "dswap", "dcopy",
            "dmove", "mval", "mclaim", "eclaim"}
KeptOnPush(e, k) == LET i == IF e.t = "object" THEN ObjFind(e.c, k) ELSE 0
                    IN  Append(IF i = 0 THEN Upto(Len(e.c)) ELSE RemoveAt(Upto(Len(e.c)), i), 0)
KeptOnDrop(e, i, j) == SubSeq(Upto(Len(e.c)), 1, i - 1) \o SubSeq(Upto(Len(e.c)), j, Len(e.c))
ApplyList(o, sl, rg) ==
  LET e == Dst(o, sl)
      put(c) == PutAt(o, sl, [e EXCEPT !.c = c])
      new == IF o.op \in {"pushs", "inss"} THEN sl[o.s] ELSE o.el
      gone(s) == IF o.op \in {"pushs", "inss"} THEN PutSlot(s, o.s, Nil) ELSE s
      n == Len(e.c)
  IN
  CASE o.op \in {"push", "pushs"} ->
         Out(gone(put(PushTo(e.t, e.c, new))), rg,
             [kept |-> IF HasStrKey(new) THEN KeptOnPush(e, new.c[1].v) ELSE Append(Upto(n), 0)])
    [] o.op \in {"ins", "inss"} ->
         Out(gone(put(InsertAt(e.c, o.i, new))), rg, [n |-> o.i, kept |-> InsertAt(Upto(n), o.i, 0)])
    [] o.op = "era" -> Out(put(RemoveAt(e.c, o.i)), rg, [n |-> o.i, kept |-> RemoveAt(Upto(n), o.i)])
    [] o.op = "erange" -> Out(put(SubSeq(e.c, 1, o.i - 1) \o SubSeq(e.c, o.j, n)), rg,
                              [n |-> o.i, kept |-> KeptOnDrop(e, o.i, o.j)])
    [] o.op = "clr" -> Out(put(<<>>), rg, [kept |-> <<>>])
    [] o.op = "lst" -> Out(sl, rg, [len |-> n, b |-> n = 0, it |-> n, kept |-> Upto(n)])
    [] o.op = "take" -> Out(PutSlot(put(RemoveAt(e.c, o.i)), o.j, e.c[o.i]), rg, [kept |-> RemoveAt(Upto(n), o.i)])
    [] o.op = "addm" -> LET c == ObjAdd(e.c, o.k, o.el)
                        IN  Out(put(c), rg, [n |-> Len(c), kept |-> KeptOnPush(e, o.k)])
    [] o.op = "find" -> Out(sl, rg, [n |-> ObjFind(e.c, o.k), kept |-> Upto(n)])
    [] o.op = "dcopy" -> Out(PutAt(o, sl, SetContent(e, Src(o, sl))), rg, <<>>)
    [] o.op \in {"dmove", "dswap"} ->
         LET f == Src(o, sl)
             left == IF o.op = "dswap" THEN e ELSE MkSet(f.t)
             s1 == PutAt(o, sl, SetContent(e, f))
         IN  Out([s1 EXCEPT ![o.s] = Update(s1[o.s], o.q, SetContent(f, left))], rg, <<>>)
    [] o.op = "mval" -> Out(put(<<e.c[1], o.el>>), rg, <<>>)
    [] o.op = "mclaim" -> Out(PutSlot(put(<<e.c[1], Nil>>), o.j, e.c[2]), rg, [b |-> TRUE])
    [] o.op = "eclaim" -> Out(PutSlot(put(<<Nil>>), o.j, e.c[1]), rg, [b |-> TRUE])

\* ------------------------------- comparison, merging, expansion, the registry
RelOps == {"eq", "teq", "ieq", "deq", "merge", "expand", "expandable", "radd", "rfind", "rremove", "rclear", "rroot"}
ToSet0(s) == {s[i] : i \in 1..Len(s)}
ApplyRel(o, sl, rg) ==
  CASE o.op = "eq" -> LET b == Eq(Dst(o, sl), Src(o, sl)) IN Out(sl, rg, [b |-> b, ne |-> ~b, sym |-> b])
    [] o.op = "teq" -> LET b == TolerantEq(Dst(o, sl), Src(o, sl),
                                  IF o.mode = "default" THEN {"sourceMap"} ELSE ToSet0(o.ia),
                                  IF o.mode = "default" THEN {} ELSE ToSet0(o.im))
                       IN  Out(sl, rg, [b |-> b, sym |-> b])
    [] o.op = "ieq" -> LET m == InfoEq(Dst(o, sl).m, Src(o, sl).m)
                           a == InfoEq(Dst(o, sl).a, Src(o, sl).a)
                       IN  Out(sl, rg, [b |-> m, b2 |-> a, n |-> ~m, n2 |-> ~a])
    [] o.op = "deq" -> LET b == ContentEq(Dst(o, sl), Src(o, sl)) IN Out(sl, rg, [b |-> b, sym |-> b])
    [] o.op = "merge" -> LET r == Merge(Src(o, sl).c) IN Out(PutSlot(sl, o.d, r.el), rg, [err |-> r.err])
    [] o.op = "expand" -> LET r == Expand(Src(o, sl), rg, <<>>)
                          IN  Out(PutSlot(sl, o.d, r.el), rg, [err |-> r.err, none |-> r.none])
    [] o.op = "expandable" -> LET b == Expandable(Src(o, sl)) IN Out(sl, rg, [b |-> b, b2 |-> b])
    [] o.op = "radd" -> LET x == RegOutcome(rg, sl[o.s])
                        IN  Out(PutSlot(sl, o.s, Nil),
                                IF x = "ok" THEN Append(rg, [k |-> RegId(sl[o.s]).v, el |-> sl[o.s]]) ELSE rg, [x |-> x])
    [] o.op = "rfind" -> Out(sl, rg, [el |-> RegFind(rg, o.k), b |-> TRUE])
    [] o.op = "rremove" -> Out(sl, InfoErase(rg, o.k), [b |-> InfoHas(rg, o.k)])
    [] o.op = "rclear" -> Out(sl, <<>>, <<>>)
    [] o.op = "rroot" -> Out(sl, rg, [el |-> RootAncestor(rg, o.k)])

\* --------------------------------------------------------------------- queries
QueryOps == {"visit", "walk", "size", "card", "value", "uvalue", "inherits", "rkey", "uset", "attrs", "descr", "appinfo", "bykey",
             "keystr", "cmp", "dump"}
AddTA(e, x) == IF HasTypeAttr(e, x) THEN e
               ELSE LET l == Attr(e, "typeAttributes")
                    IN  IF IsNil(l) THEN [e EXCEPT !.a = InfoSet(e.a, "typeAttributes", MkC("array", <<Str(x)>>))]
                        ELSE IF l.t # "array" THEN e
                        ELSE [e EXCEPT !.a = InfoSet(e.a, "typeAttributes", [l EXCEPT !.c = Append(l.c, Str(x))])]
AddToList(e, k, x) == LET l == Attr(e, k)
                      IN  IF IsNil(l) THEN [e EXCEPT !.a = InfoSet(e.a, k, MkC("array", <<x>>))]
                          ELSE [e EXCEPT !.a = InfoSet(e.a, k, [l EXCEPT !.c = Append(l.c, x)])]
SetUtil(o, e) ==
  CASE o.how = "fixed" -> AddTA(e, "fixed")
    [] o.how = "ta" -> AddTA(e, o.x)
    [] o.how = "default" -> [e EXCEPT !.a = InfoSet(e.a, "default", o.el)]
    [] o.how = "sample" -> AddToList(e, "samples", o.el)
    [] o.how = "enum" -> AddToList(e, "enumerations", o.el)
SortedKinds == <<"array", "boolean", "enum", "extend", "holder", "member", "null", "number", "object", "option", "ref", "select", "string">>
ApplyQuery(o, sl, rg) ==
  CASE o.op = "visit" ->
         LET t == Src(o, sl).t
         IN  Out(sl, rg, [by |-> t, ifc |-> "element", typed |-> t, ret |-> t, void |-> t, ref |-> t, q |-> t, q2 |-> t,
                          q3 |-> t, casts |-> <<t>>, gets |-> <<t>>, same |-> TRUE, nothing |-> TRUE])
    [] o.op = "walk" ->
         LET e == Src(o, sl)
             all == WalkAll(e)
             base == [all |-> all, kinds |-> [i \in 1..Len(all) |-> At(e, all[i]).t],
                      fall |-> FilterByName(e, all, o.x), fempty |-> FilterByName(e, all, o.x) = <<>>]
         IN  Out(sl, rg, IF e.s THEN base @@ [kids |-> ChildPaths(e), fkids |-> FilterByName(e, ChildPaths(e), o.x)] ELSE base)
    [] o.op = "size" -> Out(sl, rg, [n |-> Size(Src(o, sl), o.b)])
    [] o.op = "card" -> Out(sl, rg, [sum |-> CAdd(o.i, o.j), mul |-> CMul(o.i, o.j), eq |-> o.i = o.j, ne |-> o.i # o.j,
                                     fin |-> o.i # Open, zero |-> Card(0), empty |-> Card(0)])
    [] o.op = "value" -> LET e == Src(o, sl)
                             v == Value(e)
                         IN  Out(sl, rg, [el |-> v, self |-> ValueIsSelf(e), sample |-> Sample(e), default |-> Default(e)])
    [] o.op = "uvalue" -> LET e == Src(o, sl)
                          IN  Out(sl, rg, [sample |-> FirstSample(e), default |-> Attr(e, "default"), value |-> FindValue(e),
                                           self |-> e.s, hasd |-> InfoHas(e.a, "default"), defs |-> DefinesValue(e)])
    [] o.op = "inherits" -> Out(sl, rg, [b |-> InheritsFixed(Src(o, sl))])
    [] o.op = "rkey" -> Out(sl, rg, [x |-> RenderKey(Src(o, sl))])
    [] o.op = "uset" -> Out(PutAt(o, sl, SetUtil(o, Dst(o, sl))), rg, <<>>)
    [] o.op = "attrs" ->
         LET e == Src(o, sl)
         IN  Out(sl, rg, [ta |-> HasTA(e, o.x), ta2 |-> HasTypeAttr(e, o.x), fix |-> HasTypeAttr(e, "fixed"),
                          fixt |-> HasTypeAttr(e, "fixedType"), req |-> HasTypeAttr(e, "required"),
                          opt |-> HasTypeAttr(e, "optional"), nul |-> HasTypeAttr(e, "nullable"),
                          var |-> IsVariable(e), var2 |-> IsVariable(e), lit |-> IsLiteral(e)])
    [] o.op = "descr" -> LET e == Src(o, sl)
                         IN  Out(sl, rg, [el |-> Description(e), cm |-> OfKind(InfoGet(e.m, o.k), "string"),
                                          ca |-> OfKind(InfoGet(e.a, o.k), "array")])
    [] o.op = "appinfo" -> LET e == Dst(o, sl)
                           IN  Out(PutAt(o, sl, WithInfo(e, o.w, AppendInfo(Info(e, o.w), o.k, Str(o.x)))), rg, <<>>)
    [] o.op = "bykey" -> LET n == MemberByKey(Src(o, sl).c, o.k) IN Out(sl, rg, [n |-> n, none |-> n = 0])
    [] o.op = "keystr" -> Out(sl, rg, [x |-> KeyString(Src(o, sl))])
    [] o.op = "cmp" -> LET e == Src(o, sl)
                           k == e.t = "member" /\ e.s /\ StrIs(e.c[1], o.k)
                           v == StrIs(e, o.k)
                       IN  Out(sl, rg, [b |-> k, b2 |-> v, b3 |-> v])
    [] o.op = "dump" -> Out(sl, rg, [l |-> IF o.how = "call" \/ o.how = "visit" THEN Dump(Src(o, sl), o.i) ELSE <<>>])

\* ------------------------------------------------------------------------- all
InitSlots == [i \in 1..NSlots |-> Nil]
Apply(o, sl, rg) ==
  CASE o.op = "reset" -> Out(InitSlots, BaseReg, [leak |-> 0])
    [] o.op \in TreeOps -> ApplyTree(o, sl, rg)
    [] o.op \in InfoOps -> ApplyInfo(o, sl, rg)
    [] o.op \in ListOps -> ApplyList(o, sl, rg)
    [] o.op \in RelOps -> ApplyRel(o, sl, rg)
    [] o.op \in QueryOps -> ApplyQuery(o, sl, rg)

\* the registry as a set of named definitions (its order is not observable)
RegSet(rg) == {<<rg[i].k, rg[i].el>> : i \in 1..Len(rg)}
=============================================================================

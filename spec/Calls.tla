-------------------------------- MODULE Calls -------------------------------
(* The C interface: what a client that reads, checks and writes blueprints    *)
(* sees, for any text.  What a blueprint means is the subject of Blue; here   *)
(* the result of reading a text is whatever was observed, and specified is    *)
(* what holds of every result, how the results of different calls have to     *)
(* agree, and what the calls leave behind.                                    *)
(*                                                                            *)
(* State: two sets of parse options, two of serialise options, three results, *)
(* and what the texts read so far were read as.                               *)
EXTENDS Values

(* ------------------------------------------------ the grammar of results *)
KeysIn(x, ks) == /\ \A i \in 1..Len(x) : x[i].k \in ks
                 /\ \A i, j \in 1..Len(x) : x[i].k = x[j].k => i = j
AttrEl(e, k) == LET y == SelectSeq(e.a, LAMBDA z : z.k = k) IN IF y = <<>> THEN Nil ELSE y[1].el
MetaEl(e, k) == LET y == SelectSeq(e.m, LAMBDA z : z.k = k) IN IF y = <<>> THEN Nil ELSE y[1].el
IsMaps(x) == "maps" \in DOMAIN x
\* a string, perhaps with a source map
IsText(e) == e.t = "string" /\ e.n = "string" /\ e.m = <<>> /\ KeysIn(e.a, {"sourceMap"})
IsTextSet(e) == IsText(e) /\ e.s
HasText(e, k) == ~IsNil(AttrEl(e, k)) => IsTextSet(AttrEl(e, k))
ClassOf(e) == LET x == MetaEl(e, "classes") IN IF IsNil(x) \/ x.t # "array" \/ Len(x.c) # 1 THEN "" ELSE x.c[1].v
Titled(e) == ~IsNil(MetaEl(e, "title")) => IsText(MetaEl(e, "title"))
ListNamed(e, n) == e.t = "array" /\ e.n = n /\ e.s
\* kinds in this order, each at most once
RECURSIVE InOrder(_, _)
InOrder(ks, order) == IF ks = <<>> THEN TRUE ELSE IF order = <<>> THEN FALSE
                      ELSE IF ks[1] = order[1] THEN InOrder(Tail(ks), Tail(order)) ELSE InOrder(ks, Tail(order))

\* a data structure, of whatever type
RECURSIVE IsData(_)
IsData(e) ==
  IF IsNil(e) THEN TRUE
  ELSE /\ e.t \in Kinds
       /\ \A i, j \in 1..Len(e.m) : e.m[i].k = e.m[j].k => i = j
       /\ \A i, j \in 1..Len(e.a) : e.a[i].k = e.a[j].k => i = j
       /\ \A i \in 1..Len(e.m) : IsMaps(e.m[i].el) \/ IsData(e.m[i].el)
       /\ \A i \in 1..Len(e.a) : IsMaps(e.a[i].el) \/ IsData(e.a[i].el)
       /\ e.t = "member" /\ e.s => ~IsNil(e.c[1]) /\ ~IsNil(e.c[2])
       /\ e.t = "select" => \A i \in 1..Len(e.c) : e.c[i].t = "option"
       /\ \A i \in 1..Len(e.c) : IsData(e.c[i])
DataAttr(e) == ~IsNil(AttrEl(e, "data")) => IsData(AttrEl(e, "data"))

IsCopy(e) == e.t = "string" /\ e.n = "copy" /\ e.s /\ e.v # "" /\ e.m = <<>> /\ KeysIn(e.a, {"sourceMap"})
IsAsset(e, class) == /\ e.t = "string" /\ e.n = "asset" /\ e.s /\ KeysIn(e.m, {"classes"}) /\ ClassOf(e) = class
                     /\ KeysIn(e.a, {"sourceMap", "contentType"}) /\ HasText(e, "contentType")
IsPair(e) == e.t = "member" /\ e.n = "member" /\ e.s /\ Len(e.c) = 2 /\ IsText(e.c[1]) /\ IsText(e.c[2]) /\ KeysIn(e.a, {"sourceMap"})
IsHeaders(e) == ListNamed(e, "httpHeaders") /\ \A i \in 1..Len(e.c) : IsPair(e.c[i])
IsUriVar(e) == /\ e.t = "member" /\ e.s /\ Len(e.c) = 2 /\ IsTextSet(e.c[1]) /\ e.c[2].t \in {"string", "enum"}
                 /\ KeysIn(e.m, {"description", "title"}) /\ KeysIn(e.a, {"sourceMap", "typeAttributes"})
                 /\ LET y == AttrEl(e, "typeAttributes") IN ~IsNil(y) /\ y.t = "array" /\ Len(y.c) = 1 /\ y.c[1].v \in {"required", "optional"}
IsVariables(e) == /\ e.t = "object" /\ e.n = "hrefVariables" /\ e.s /\ \A i \in 1..Len(e.c) : IsUriVar(e.c[i])
                  /\ \A i, j \in 1..Len(e.c) : e.c[i].c[1].v = e.c[j].c[1].v => i = j
HasVariables(e) == ~IsNil(AttrEl(e, "hrefVariables")) => IsVariables(AttrEl(e, "hrefVariables"))
IsStructure(e) == e.t = "holder" /\ e.n = "dataStructure" /\ e.s /\ IsData(e)
PartName(e) == IF e.n = "asset" THEN ClassOf(e) ELSE e.n
PartOk(e) == CASE e.n = "copy" -> IsCopy(e) [] e.n = "asset" -> IsAsset(e, ClassOf(e)) [] e.n = "dataStructure" -> IsStructure(e) [] OTHER -> FALSE
IsMessage(e, n) ==
  /\ ListNamed(e, n) /\ Titled(e) /\ HasVariables(e)
  /\ KeysIn(e.m, IF n = "httpRequest" THEN {"title"} ELSE {})
  /\ KeysIn(e.a, {"sourceMap", "headers", "hrefVariables", IF n = "httpRequest" THEN "method" ELSE "statusCode"})
  /\ HasText(e, "method") /\ HasText(e, "statusCode")
  /\ ~IsNil(AttrEl(e, "headers")) => IsHeaders(AttrEl(e, "headers"))
  /\ \A i \in 1..Len(e.c) : PartOk(e.c[i])
  /\ InOrder([i \in 1..Len(e.c) |-> PartName(e.c[i])], <<"copy", "dataStructure", "messageBody", "messageBodySchema">>)
IsTransaction(e) == /\ ListNamed(e, "httpTransaction") /\ e.m = <<>> /\ KeysIn(e.a, {"sourceMap"})
                    /\ LET n == Len(e.c) IN /\ n >= 2 /\ IsMessage(e.c[n - 1], "httpRequest") /\ IsMessage(e.c[n], "httpResponse")
                                            /\ \A i \in 1..(n - 2) : IsCopy(e.c[i])
IsTransition(e) ==
  /\ ListNamed(e, "transition") /\ KeysIn(e.m, {"title"}) /\ Titled(e)
  /\ KeysIn(e.a, {"sourceMap", "relation", "href", "hrefVariables", "data"}) /\ HasText(e, "relation") /\ HasText(e, "href") /\ HasVariables(e) /\ DataAttr(e)
  /\ \A i \in 1..Len(e.c) : (i = 1 /\ IsCopy(e.c[i])) \/ IsTransaction(e.c[i])
IsResource(e) ==
  /\ ListNamed(e, "resource") /\ KeysIn(e.m, {"title"}) /\ Titled(e) /\ KeysIn(e.a, {"sourceMap", "href", "hrefVariables"}) /\ HasVariables(e)
  /\ ~IsNil(AttrEl(e, "href")) /\ IsTextSet(AttrEl(e, "href"))
  /\ \A i \in 1..Len(e.c) : \/ IsTransition(e.c[i])
                            \/ (\A j \in 1..(i - 1) : e.c[j].n # "transition") /\ (IsCopy(e.c[i]) \/ IsStructure(e.c[i]))
  /\ Cardinality({i \in 1..Len(e.c) : e.c[i].n = "copy"}) <= 1
IsStructures(e) == ListNamed(e, "category") /\ ClassOf(e) = "dataStructures" /\ KeysIn(e.m, {"classes"}) /\ \A i \in 1..Len(e.c) : IsStructure(e.c[i])
IsGroup(e) == /\ ListNamed(e, "category") /\ ClassOf(e) = "resourceGroup" /\ KeysIn(e.m, {"classes", "title"}) /\ Titled(e)
              /\ \A i \in 1..Len(e.c) : IsCopy(e.c[i]) \/ IsResource(e.c[i]) \/ IsStructures(e.c[i])
IsUserData(e) == e.t = "member" /\ KeysIn(e.m, {"classes"}) /\ ClassOf(e) = "user" /\ Len(e.c) = 2 /\ IsText(e.c[1]) /\ IsText(e.c[2])
IsApi(e) == /\ ListNamed(e, "category") /\ ClassOf(e) = "api" /\ KeysIn(e.m, {"classes", "title"}) /\ Titled(e) /\ KeysIn(e.a, {"sourceMap", "metadata"})
            /\ LET m == AttrEl(e, "metadata") IN ~IsNil(m) => m.t = "array" /\ \A i \in 1..Len(m.c) : IsUserData(m.c[i])
            /\ \A i \in 1..Len(e.c) : IsCopy(e.c[i]) \/ IsResource(e.c[i]) \/ IsGroup(e.c[i]) \/ IsStructures(e.c[i])
NumText(x) == {i \in 0..20 : ToString(i) = x}
IsNote(e) == /\ e.t = "string" /\ e.n = "annotation" /\ e.s /\ e.v # "" /\ KeysIn(e.m, {"classes"}) /\ KeysIn(e.a, {"code", "sourceMap"})
             /\ LET c == AttrEl(e, "code")
                IN  ~IsNil(c) /\ c.t = "number" /\ NumText(c.v) \subseteq (IF ClassOf(e) = "error" THEN 1..4 ELSE 1..13) /\ NumText(c.v) # {}
             /\ ClassOf(e) \in {"error", "warning"}
Code2(e) == CHOOSE i \in NumText(AttrEl(e, "code").v) : TRUE
Notes2(tree) == SelectSeq(tree.c, LAMBDA e : e.n = "annotation")
Errors2(tree) == SelectSeq(Notes2(tree), LAMBDA e : ClassOf(e) = "error")
\* the result of reading a text that ended with the code rc
IsResult(tree, rc) ==
  /\ ListNamed(tree, "parseResult") /\ tree.m = <<>> /\ tree.a = <<>>
  /\ \A i \in 1..Len(tree.c) : IsNote(tree.c[i]) \/ (i = 1 /\ IsApi(tree.c[i]))
  /\ (rc = 0) = (tree.c # <<>> /\ tree.c[1].n = "category")
  /\ LET x == Errors2(tree) IN IF rc = 0 THEN x = <<>> ELSE Len(x) = 1 /\ x[1] = tree.c[1] /\ Code2(x[1]) = rc

(* ------------------------------------------------------ places in the text *)
RECURSIVE MapsIn(_)
\* all source maps in an element
MapsIn(e) ==
  IF IsMaps(e) THEN <<e.maps>>
  ELSE Concat([i \in 1..Len(e.m) |-> MapsIn(e.m[i].el)]) \o Concat([i \in 1..Len(e.a) |-> MapsIn(e.a[i].el)]) \o Concat([i \in 1..Len(e.c) |-> MapsIn(e.c[i])])
IsPlace(r, len) == Len(r) >= 2 /\ r[1] >= 0 /\ r[2] >= 0 /\ r[1] + r[2] <= len
\* that warning names the octet behind the paragraph where it means the length (known-findings.json)
Misplaced(e) == e.n = "annotation" /\ ClassOf(e) = "warning" /\ Code2(e) = 10
ElsIn(e) == IF IsMaps(e) THEN <<>> ELSE <<e>>
\* notes from the making of elements have their places
OfElement(e) == Code2(e) = 4
\* places of elements count octets, those of annotations characters (known-findings.json)
Placed(tree, octets, len, nl) ==
  LET ix == <<0>> \o nl
      ms == Concat([i \in 1..Len(tree.c) |-> IF tree.c[i].n = "annotation" THEN <<>> ELSE MapsIn(tree.c[i])])
      ns == Notes2(tree)
  IN  /\ \A i \in 1..Len(ms) : \A j \in 1..Len(ms[i]) : Len(ms[i][j]) = 2 /\ IsPlace(ms[i][j], octets)
      /\ \A i \in 1..Len(ns) :
           LET y == SelectSeq(ns[i].a, LAMBDA z : z.k = "sourceMap")
               rs == IF y # <<>> /\ IsMaps(y[1].el) THEN y[1].el.maps ELSE <<>>
           IN  /\ y # <<>> => IsMaps(y[1].el)
               /\ \A j \in 1..Len(rs) :
                    /\ Len(rs[j]) = 6
                    /\ rs[j][1] \in 0..(IF OfElement(ns[i]) THEN octets ELSE len)
                    /\ IsPlace(rs[j], IF OfElement(ns[i]) THEN octets ELSE len) \/ Misplaced(ns[i])
                    /\ IsPlace(rs[j], len) => SubSeq(rs[j], 3, 6) = Position(ix, <<rs[j][1], rs[j][2]>>)

(* -------------------------------------------------------------- agreement *)
NoOptions == [on |-> FALSE, name |-> FALSE, bodies |-> FALSE, schemas |-> FALSE]
\* bodies and schemas that are not in the text come without a source map
Made(e, class) == e.n = "asset" /\ ClassOf(e) = class /\ \A i \in 1..Len(e.a) : e.a[i].k # "sourceMap"
RECURSIVE Without(_, _)
Without(e, classes) ==
  IF IsMaps(e) \/ e.n \in {"annotation", "dataStructure"} THEN e
  ELSE [e EXCEPT !.c = LET y == SelectSeq(e.c, LAMBDA x : \A k \in classes : ~Made(x, k)) IN [i \in 1..Len(y) |-> Without(y[i], classes)]]
Skipped(o) == (IF o.bodies THEN {"messageBody"} ELSE {}) \cup (IF o.schemas THEN {"messageBodySchema"} ELSE {})
\* one text read with the options o and p as x and y
Agreed(x, o, y, p) ==
  LET all == Skipped(o) \cup Skipped(p)
  IN  CASE o.name = p.name -> x.rc = y.rc /\ Without(x.tree, all) = Without(y.tree, all)
        [] o.name /\ ~p.name -> x.rc = 2 \/ (x.rc = y.rc /\ Without(x.tree, all) = Without(y.tree, all))
        [] OTHER -> y.rc = 2 \/ (x.rc = y.rc /\ Without(x.tree, all) = Without(y.tree, all))
OnlyNotes(tree) == IF Notes2(tree) = <<>> THEN Nil ELSE [tree EXCEPT !.c = Notes2(tree)]

(* -------------------------------------------------------------- written *)
Numb(n) == MkV("number", ToString(n))
LineCol(e, l, c) == [e EXCEPT !.a = <<[k |-> "line", el |-> Numb(l)], [k |-> "column", el |-> Numb(c)]>>]
RangeEl(r) == MkC("array", IF Len(r) = 2 THEN <<Numb(r[1]), Numb(r[2])>> ELSE <<LineCol(Numb(r[1]), r[3], r[4]), LineCol(Numb(r[2]), r[5], r[6])>>)
MapEl(rs) == MkC("array", <<[MkC("array", [i \in 1..Len(rs) |-> RangeEl(rs[i])]) EXCEPT !.n = "sourceMap"]>>)
RECURSIVE InFull(_)
InFull(e) ==
  IF IsMaps(e) THEN MapEl(e.maps)
  ELSE [e EXCEPT !.m = [i \in 1..Len(@) |-> [@[i] EXCEPT !.el = InFull(@)]], !.a = [i \in 1..Len(@) |-> [@[i] EXCEPT !.el = InFull(@)]],
                 !.c = [i \in 1..Len(@) |-> InFull(@[i])]]
NoText2 == [f |-> "none", v |-> Nil]
DefaultS == [on |-> FALSE, maps |-> FALSE, fmt |-> "yaml"]
Written(tree, so) == IF IsNil(tree) THEN NoText2 ELSE [f |-> so.fmt, v |-> Tree(InFull(tree), so.maps)]

(* ------------------------------------------------------------ the machine *)
Start == [po |-> <<NoOptions, NoOptions>>, so |-> <<DefaultS, DefaultS>>, h |-> <<Nil, Nil, Nil>>, seen |-> <<>>]
OptsAt(s, i) == IF i = 0 THEN NoOptions ELSE s.po[i]
SOptsAt(s, i) == IF i = 0 THEN DefaultS ELSE s.so[i]
Held(s, i) == IF i = 0 THEN Nil ELSE s.h[i]
SeenOf(s, t) == SelectSeq(s.seen, LAMBDA x : x.text = t)
eArgument == -2
Ok2(s, c) == [s |-> s, ok |-> c]
\* the state behind a call, and whether what it returned is right
Call(o, r, s) ==
  CASE o.op = "popts" ->
         Ok2(LET x == s.po[o.slot]
             IN  [s EXCEPT !.po[o.slot] = CASE o.act = "init" -> [NoOptions EXCEPT !.on = TRUE] [] o.act = "free" -> NoOptions [] OTHER -> [x EXCEPT ![o.act] = TRUE]], TRUE)
    [] o.op = "sopts" ->
         Ok2(LET x == s.so[o.slot]
             IN  [s EXCEPT !.so[o.slot] = CASE o.act = "init" -> [DefaultS EXCEPT !.on = TRUE] [] o.act = "free" -> DefaultS
                                             [] o.act = "maps" -> [x EXCEPT !.maps = TRUE] [] OTHER -> [x EXCEPT !.fmt = o.act]], TRUE)
    [] o.op = "read" ->
         LET op == OptsAt(s, o.opts)
             old == SeenOf(s, o.text)
         IN  IF o.null THEN Ok2(IF o.out = 0 THEN s ELSE [s EXCEPT !.h[o.out] = Nil], r.rc = eArgument /\ (o.out # 0 => IsNil(r.tree)))
             ELSE IF o.out = 0 THEN Ok2(s, \A i \in 1..Len(old) : old[i].opts.name = op.name => old[i].rc = r.rc)
             ELSE LET x == [text |-> o.text, opts |-> op, rc |-> r.rc, tree |-> r.tree]
                  IN  Ok2([s EXCEPT !.h[o.out] = r.tree, !.seen = IF \E i \in 1..Len(old) : old[i].opts = op THEN @ ELSE Append(@, x)],
                          /\ IsResult(r.tree, r.rc) /\ (o.sound => Placed(r.tree, r.octets, r.len, r.nl))
                          /\ \A i \in 1..Len(old) : Agreed(old[i], old[i].opts, x, op))
    [] o.op = "check" ->
         LET op == OptsAt(s, o.opts)
             old == SelectSeq(SeenOf(s, o.text), LAMBDA x : x.opts.name = op.name)
         IN  IF o.null THEN Ok2(IF o.out = 0 THEN s ELSE [s EXCEPT !.h[o.out] = Nil], r.rc = eArgument /\ (o.out # 0 => IsNil(r.tree)))
             ELSE Ok2(IF o.out = 0 THEN s ELSE [s EXCEPT !.h[o.out] = r.tree],
                      \A i \in 1..Len(old) : old[i].rc = r.rc /\ (o.out # 0 => r.tree = OnlyNotes(old[i].tree)))
    [] o.op = "readto" ->
         LET op == OptsAt(s, o.opts)
             old == SelectSeq(SeenOf(s, o.text), LAMBDA x : x.opts = op)
         IN  IF o.null THEN Ok2(s, r.rc = eArgument /\ r.x = NoText2)
             ELSE Ok2(s, \A i \in 1..Len(old) : old[i].rc = r.rc /\ r.x = IF o.want THEN Written(old[i].tree, SOptsAt(s, o.sopts)) ELSE NoText2)
    [] o.op = "write" -> Ok2(s, r.x = Written(Held(s, o.h), SOptsAt(s, o.sopts)))
    [] o.op = "free" -> Ok2(IF o.h = 0 THEN s ELSE [s EXCEPT !.h[o.h] = Nil], TRUE)
    [] o.op = "look" -> Ok2(s, r.tree = Held(s, o.h))
    [] o.op = "reset" -> Ok2(Start, r.leak = 0)
=============================================================================

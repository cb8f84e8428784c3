-------------------------------- MODULE Blue --------------------------------
(* API Blueprint: what the parser makes of a document (Document.tla).  Parse  *)
(* is what it means: the API Elements, the error and the warnings with the    *)
(* line each is about, and for every element the lines of the text it comes   *)
(* from.                                                                      *)
EXTENDS Mson

(* headers *)
TokenChar(c) == OneOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-#$%&'*+.^_`|~", c)
RECURSIVE NameEnd(_, _), BlanksEnd(_, _)
NameEnd(t, i) == IF i <= Len(t) /\ ~OneOf(": ", CharAt(t, i)) THEN NameEnd(t, i + 1) ELSE i
BlanksEnd(t, i) == IF i <= Len(t) /\ CharAt(t, i) = " " THEN BlanksEnd(t, i + 1) ELSE i
HeaderLine(acc, line, n) ==                     \* acc: [hs, p]
  LET t == Trim(line)
      e == NameEnd(t, 1)
      name == Upto(t, e - 1)
      s == BlanksEnd(t, e)
      colon == s <= Len(t) /\ CharAt(t, s) = ":"
      value == Trim(From(t, IF colon THEN s + 1 ELSE s))
      twice == /\ \E i \in 1..Len(acc.hs) : LowerStr(acc.hs[i].k) = LowerStr(name)
               /\ LowerStr(name) \notin {"set-cookie", "link"}
  IN  IF t = "" THEN acc
      ELSE IF name = "" THEN [acc EXCEPT !.p = Warn(acc.p, wFormat, n)]
      ELSE IF \E i \in 1..Len(name) : ~TokenChar(CharAt(name, i)) THEN [acc EXCEPT !.p = Warn(acc.p, wHttp, n)]
      ELSE [hs |-> Append(acc.hs, [k |-> name, v |-> value, m |-> <<t>>]),
            p |-> WarnIf(value = "", WarnIf(twice, WarnIf(~colon, acc.p, wHttp, n), wHttp, n), wHttp, n)]
HeaderLines(acc, ls, n) == FoldLeft(LAMBDA a, i : HeaderLine(a, ls[i], n + i - 1), acc, [i \in 1..Len(ls) |-> i])
RECURSIVE HeaderBlocks(_, _, _)
HeaderBlocks(acc, bs, i) ==
  IF i > Len(bs) THEN acc
  ELSE IF Kw(bs[i]) # "" THEN FoldLeft(LAMBDA a, j : [a EXCEPT !.p = Warn(a.p, wIgnore, bs[j].n)], acc, [j \in 1..(Len(bs) - i + 1) |-> i + j - 1])
  ELSE LET b == bs[i]
           a == [acc EXCEPT !.p = AsCode(b, acc.p)]
       IN  HeaderBlocks(HeaderLines(a, IF b.k = "i" THEN BlockLines(b) ELSE b.ls, IF b.k = "c" /\ b.f THEN b.n + 1 ELSE b.n), bs, i + 1)
\* [hs, p]
ParseHeaders(b, hs, p) ==
  LET a == HeaderLines([hs |-> hs, p |-> SigAsCode(b, p)], b.ls, b.n + 1)
      r == HeaderBlocks(a, b.kids, 1)
  IN  [r EXCEPT !.p = WarnIf(r.hs = <<>>, r.p, wFormat, b.n)]

(* bodies and schemas: [t, p] *)
RECURSIVE AssetBlocks(_, _, _)
AssetBlocks(acc, bs, i) ==
  IF i > Len(bs) THEN acc
  ELSE IF Kw(bs[i]) # "" THEN FoldLeft(LAMBDA a, j : [a EXCEPT !.p = Warn(a.p, wIgnore, bs[j].n)], acc, [j \in 1..(Len(bs) - i + 1) |-> i + j - 1])
  ELSE AssetBlocks([t |-> T(acc.t.x \o CodeText2(bs[i]), acc.t.m \o bs[i].m), p |-> AsCode(bs[i], acc.p)], bs, i + 1)
ParseAsset(b, p) ==
  AssetBlocks([t |-> IF b.ls = <<>> THEN NoText ELSE T(SigRest(b) \o "\n", b.sm), p |-> SigAsCode(b, p)], b.kids, 1)

(* parameters *)
NewParam == [name |-> NoText, desc |-> NoText, type |-> NoText, use |-> "", ex |-> NoText, def |-> NoText, values |-> <<>>]
Backticked(t) == Len(t) >= 2 /\ CharAt(t, 1) = "`" /\ CharAt(t, Len(t)) = "`"
\* acc: [x parameter, bad]
Trait(acc, a, old, m) ==
  IF acc.bad THEN acc
  ELSE IF LowerStr(a) \in {"optional", "required"} /\ acc.x.use = "" THEN [acc EXCEPT !.x.use = LowerStr(a)]
  ELSE IF old /\ Backticked(a) THEN [acc EXCEPT !.x.ex = T(SubSeq(a, 2, Len(a) - 1), m)]
  ELSE IF acc.x.type.x # "" THEN [acc EXCEPT !.bad = TRUE]
  ELSE [acc EXCEPT !.x.type = T(a, m)]
Traits(x, at, old, b, p) ==
  LET r == IF Len(at) > (IF old THEN 3 ELSE 2) THEN [x |-> x, bad |-> TRUE]
           ELSE FoldLeft(LAMBDA acc, i : Trait(acc, at[i], old, b.sm), [x |-> x, bad |-> FALSE], [i \in 1..Len(at) |-> i])
  IN  IF r.bad THEN [x |-> [r.x EXCEPT !.type = NoText, !.use = "", !.ex = IF old THEN NoText ELSE @], p |-> Warn(p, wFormat, b.n)]
      ELSE [x |-> IF old THEN r.x ELSE [r.x EXCEPT !.type.x = EnumOf(@)], p |-> p]
\* what one list of values says: [vs, p]
ValuesOf(b, p) ==
  FoldLeft(LAMBDA acc, k : IF k.k = "i" /\ k.s.k = "val" /\ k.b = <<>> THEN [acc EXCEPT !.vs = Append(@, T(k.s.x, k.m))]
                           ELSE [acc EXCEPT !.p = Warn(acc.p, wIgnore, k.n)],
           [vs |-> <<>>, p |-> p], b.kids)
MembersOf(b, p) == [vs |-> [i \in 1..Len(b.kids) |-> T(b.kids[i].s.x, b.kids[i].sm)], p |-> p]
ParamNested(acc, b, old) ==                     \* acc: [x, p]
  LET p == acc.p
      x == acc.x
  IN  IF old THEN (IF Kw(b) # "values" THEN [acc EXCEPT !.p = Warn(p, wIgnore, b.n)]
                   ELSE LET r == ValuesOf(b, WarnIf(x.values # <<>>, p, wRedefine, b.n))
                        IN  [x |-> [x EXCEPT !.values = r.vs], p |-> WarnIf(r.vs = <<>>, r.p, wEmpty, b.n)])
      ELSE CASE InMsonParam(b) = "default" -> [acc EXCEPT !.x.def = T(b.s.x, b.sm)]
             [] InMsonParam(b) = "sample" -> [acc EXCEPT !.x.ex = T(b.s.x, b.sm)]
             [] InMsonParam(b) = "members" -> LET r == MembersOf(b, p) IN [x |-> [x EXCEPT !.values = r.vs], p |-> r.p]
             [] OTHER -> [acc EXCEPT !.p = Warn(p, wIgnore, b.n)]
In(v, vs) == \E i \in 1..Len(vs) : vs[i].x = v
ParseParam(b, p) ==                             \* [x, p]
  LET old == ParamShape(b) = "old"
      s == b.s
      d0 == s.d \o (IF b.ls = <<>> THEN "" ELSE "\n" \o SigRest(b) \o (IF old THEN "" ELSE "\n"))
      d == IF old THEN Trim(d0) ELSE d0
      x0 == [NewParam EXCEPT !.name = T(s.n, b.sm), !.desc = Said(NoText, d, b.sm),
                             !.def = IF old THEN Said(NoText, s.x, b.sm) ELSE NoText,
                             !.ex = IF old THEN NoText ELSE Said(NoText, s.x, b.sm)]
      t == Traits(x0, s.at, old, b, p)
      ds == Describe(b.kids, 1, t.x.desc, LAMBDA k : IF old THEN Kw(k) # "values" ELSE InMsonParam(k) = "")
      r == FoldLeft(LAMBDA acc, i : ParamNested(acc, b.kids[i], old), [x |-> [t.x EXCEPT !.desc = ds.t], p |-> t.p],
                    [j \in 1..(Len(b.kids) - ds.i + 1) |-> ds.i + j - 1])
      x == r.x
      clash == x.use # "optional" /\ x.def.x # ""
      off == x.values # <<>> /\ ((x.ex.x # "" /\ ~In(x.ex.x, x.values)) \/ (x.def.x # "" /\ ~In(x.def.x, x.values)))
  IN  [x |-> x, p |-> WarnIf(off, WarnIf(clash, r.p, wLogic, b.n), wLogic, b.n)]
\* a list of parameters: [ps, p]
ParseParams(b, ps, p) ==
  LET one(acc, k) ==
        IF ParamShape(k) = "" THEN [acc EXCEPT !.p = Warn(acc.p, wIgnore, k.n)]
        ELSE LET r == ParseParam(k, acc.p)
                 same == \E i \in 1..Len(acc.ps) : acc.ps[i].name.x = r.x.name.x
             IN  [ps |-> Append(SelectSeq(acc.ps, LAMBDA y : y.name.x # r.x.name.x), r.x), p |-> WarnIf(same, r.p, wRedefine, k.n)]
      r == FoldLeft(one, [ps |-> ps, p |-> WarnIf(b.ls # <<>>, p, wIgnore, b.n)], b.kids)
  IN  [r EXCEPT !.p = WarnIf(r.ps = <<>>, r.p, wFormat, b.n)]
\* one warning for each parameter the template does not know
Unknown(ps, vars, p, n) == FoldLeft(LAMBDA q, x : WarnIf(x.name.x \notin vars, q, wLogic, n), p, ps)

(* payloads: requests, responses, models *)
Digits3(x) == IF x = "" THEN 0 ELSE LET c == Trim(x) IN FoldLeft(LAMBDA a, i : a * 10 + (CHOOSE d \in 0..9 : ToString(d) = CharAt(c, i)), 0, [i \in 1..Len(c) |-> i])
NoBodyCode(c) == c \in {204, 304} \/ c \div 100 = 1
HeaderOf(hs, k) == LET y == SelectSeq(hs, LAMBDA h : h.k = k) IN IF y = <<>> THEN "" ELSE y[1].v
LastHeader(hs, k) == LET y == SelectSeq(hs, LAMBDA h : h.k = k) IN IF y = <<>> THEN "" ELSE y[Len(y)].v
CheckRequest(x, p, n) ==
  LET bare == x.body.x = "" /\ NoAttributes(x.attrs) /\ x.ref.st # "pending"
      asks == LastHeader(x.headers, "Content-Length") # "" \/ LastHeader(x.headers, "Transfer-Encoding") # ""
  IN  WarnIf(bare /\ ((x.headers = <<>> /\ x.params = <<>>) \/ asks), p, wEmpty, n)
CheckResponse(x, p, n) == WarnIf(NoBodyCode(IF x.name.x = "" THEN 200 ELSE Digits3(x.name.x)) /\ x.body.x # "" /\ x.ref.st # "pending", p, wEmpty, n)
FindModel(p, id) == FirstIdx(p.models, LAMBDA y : y.k = id)
\* the payload takes what the model has: [x, p]
Refer(x, p) ==
  LET mo == p.models[FindModel(p, x.ref.id)].v
      own == x.headers # <<>>
      typed == \E i \in 1..Len(mo.headers) : mo.headers[i].k = "Content-Type"
  IN  [x |-> [x EXCEPT !.desc = mo.desc, !.params = mo.params, !.body = mo.body, !.schema = mo.schema,
                       !.headers = IF own /\ ~typed THEN @ \o mo.headers ELSE mo.headers],
       p |-> WarnIf(own /\ typed, p, wIgnore, x.ref.n)]
\* the payload refers to the model id: [x, p]
Reference(x, id, n, m, p) ==
  LET y == [x EXCEPT !.ref = [id |-> id, st |-> IF FindModel(p, id) = 0 THEN "pending" ELSE "resolved", n |-> n, m |-> m]]
  IN  IF y.ref.st = "pending" THEN [x |-> y, p |-> p] ELSE Refer(y, p)
AddBody(x, t, m) == [x EXCEPT !.body = T(@.x \o t, @.m \o m)]
RECURSIVE PayloadContent(_, _, _), PayloadNested(_, _, _, _, _)
\* content of an abbreviated payload: [x, p]
PayloadContent(acc, bs, i) ==
  IF i > Len(bs) THEN acc
  ELSE IF Kw(bs[i]) # "" THEN FoldLeft(LAMBDA a, j : [a EXCEPT !.p = Warn(a.p, wIgnore, bs[j].n)], acc, [j \in 1..(Len(bs) - i + 1) |-> i + j - 1])
  ELSE LET b == bs[i]
           id == IF b.k = "p" /\ acc.x.body.x = "" THEN RefText(OwnText(b)) ELSE ""
       IN  PayloadContent(IF acc.x.ref.id # "" THEN [acc EXCEPT !.p = Warn(acc.p, wIgnore, b.n)]
                          ELSE IF id # "" THEN Reference(acc.x, id, b.n, b.m, acc.p)
                          ELSE [x |-> AddBody(acc.x, CodeText2(b), b.m), p |-> AsCode(b, acc.p)], bs, i + 1)
PayloadNested(acc, bs, i, last, kind) ==
  IF i > Len(bs) THEN acc
  ELSE LET b == bs[i]
           ctx == InPayload(b)
           x == acc.x
           p == acc.p
           r == CASE ctx = "headers" -> (LET h == ParseHeaders(b, x.headers, p) IN [x |-> [x EXCEPT !.headers = h.hs], p |-> h.p])
                  [] ctx = "params" -> (IF kind # "request" THEN [x |-> x, p |-> Warn(p, wIgnore, b.n)]
                                        ELSE LET h == ParseParams(b, x.params, p) IN [x |-> [x EXCEPT !.params = h.ps], p |-> h.p])
                  [] ctx = "body" -> (LET h == ParseAsset(b, WarnIf(x.body.x # "", p, wRedefine, b.n)) IN [x |-> [x EXCEPT !.body = h.t], p |-> h.p])
                  [] ctx = "schema" -> (LET h == ParseAsset(b, WarnIf(x.schema.x # "", p, wRedefine, b.n)) IN [x |-> [x EXCEPT !.schema = h.t], p |-> h.p])
                  [] ctx = "attributes" -> (LET h == ReadAttributes(b, "", p) IN [x |-> [x EXCEPT !.attrs = h.x], p |-> h.p])
                  [] OTHER -> IF Plain2(b) /\ last = "body" THEN [x |-> AddBody(x, TwoBreaks(CodeText2(b)), b.m), p |-> Warn(MaybeRef(b, p), wIndent, b.n)]
                              ELSE [x |-> x, p |-> Warn(p, wIgnore, b.n)]
       IN  PayloadNested(r, bs, i + 1, LeftLast(last, ctx, bs, i + 1), kind)
\* kind: request, response, model: [x, p]
ParsePayload(b, p0) ==
  LET s == b.s
      full == Full(b)
      bad == s.k # "model" /\ s.j # ""
      x1 == IF bad THEN NewPayload
            ELSE [NewPayload EXCEPT !.name = Said(NoText, s.n, b.sm),
                                    !.headers = IF s.t = "" THEN <<>> ELSE <<[k |-> "Content-Type", v |-> s.t, m |-> b.sm]>>]
      p1 == WarnIf(bad, p0, wFormat, b.n)
      noCode == s.k = "response" /\ x1.name.x = ""
      x2 == [x1 EXCEPT !.m = b.sm, !.name = IF noCode THEN T("200", <<>>) ELSE @]
      p2 == WarnIf(noCode, p1, wEmpty, b.n)
      id == RefText(SigRest(b))
      r3 == IF b.ls = <<>> THEN [x |-> x2, p |-> p2]
            ELSE IF full THEN [x |-> [x2 EXCEPT !.desc = T(SigRest(b), b.sm)], p |-> p2]
            ELSE IF id # "" THEN Reference(x2, id, b.n, b.sm, p2)
            ELSE [x |-> [x2 EXCEPT !.body = T(TwoBreaks(SigRest(b) \o "\n"), b.sm)], p |-> Warn(p2, wIndent, b.n)]
      ds == Describe(b.kids, 1, r3.x.desc, LAMBDA k : InPayload(k) = "")
      r4 == IF full THEN PayloadNested([r3 EXCEPT !.x.desc = ds.t], b.kids, ds.i, "", s.k) ELSE PayloadContent(r3, b.kids, 1)
  IN  [x |-> r4.x, p |-> CASE s.k = "request" -> CheckRequest(r4.x, r4.p, b.n)
                           [] s.k = "response" -> CheckResponse(r4.x, r4.p, b.n)
                           [] OTHER -> r4.p]

(* actions *)
NoExample == [rq |-> <<>>, rs |-> <<>>]
SamePayload(x, y) == x.name.x = y.name.x /\ HeaderOf(x.headers, "Content-Type") = HeaderOf(y.headers, "Content-Type")
Inject(hs, exs) == LET f(xs) == [i \in 1..Len(xs) |-> [xs[i] EXCEPT !.headers = hs \o @]]
                   IN  [i \in 1..Len(exs) |-> [rq |-> f(exs[i].rq), rs |-> f(exs[i].rs)]]
AddPayload(a, b, p0) ==                         \* [a, p]
  LET r == ParsePayload(b, p0)
      req == b.s.k = "request"
      new == a.exs = <<>> \/ (req /\ a.exs[Len(a.exs)].rs # <<>>)
      exs == IF new THEN Append(a.exs, NoExample) ELSE a.exs
      n == Len(exs)
      others == IF req THEN exs[n].rq ELSE exs[n].rs
      twice == Full(b) /\ \E i \in 1..Len(others) : SamePayload(others[i], r.x)
      mute == ~req /\ r.x.body.x # "" /\ (a.method.x = "HEAD" \/ (a.method.x = "CONNECT" /\ Digits3(r.x.name.x) \div 100 = 2))
  IN  [a |-> [a EXCEPT !.exs = IF req THEN [exs EXCEPT ![n].rq = Append(@, r.x)] ELSE [exs EXCEPT ![n].rs = Append(@, r.x)]],
       p |-> WarnIf(mute, WarnIf(twice, r.p, wDuplicate, b.n), wEmpty, b.n)]
RelOk(x) == x = "" \/ (OneOf(Lowers, CharAt(x, 1)) /\ \A i \in 1..Len(x) : OneOf("abcdefghijklmnopqrstuvwxyz0123456789.-", CharAt(x, i)))
\* loose text behind the last payload: [a, p]
Loose(a, b, last, p) ==
  LET t == TwoBreaks(CodeText2(b))
      q == Warn(MaybeRef(b, p), wIndent, b.n)
      n == Len(a.exs)
  IN  IF Plain2(b) /\ last \in {"response", "responseBody"} /\ n > 0 /\ a.exs[n].rs # <<>>
      THEN [a |-> [a EXCEPT !.exs[n].rs[Len(a.exs[n].rs)] = AddBody(@, t, b.m)], p |-> q]
      ELSE IF Plain2(b) /\ last \in {"request", "requestBody"} /\ n > 0 /\ a.exs[n].rq # <<>>
      THEN [a |-> [a EXCEPT !.exs[n].rq[Len(a.exs[n].rq)] = AddBody(@, t, b.m)], p |-> q]
      ELSE [a |-> a, p |-> Warn(p, wIgnore, b.n)]
AboveAction == {"action", "resource", "group", "ds"}
RECURSIVE ActionNested(_, _, _, _, _)
ActionNested(a, bs, i, last, p) ==
  IF i > Len(bs) THEN Out(a, i, p)
  ELSE LET b == bs[i]
           ctx == InAction(b)
       IN  IF ctx \in {"model", "modelBody"} \/ (ctx = "" /\ Kw(b) \in AboveAction) THEN Out(a, i, p)
           ELSE LET r == CASE ctx = "relation" -> [a |-> IF RelOk(Trim(b.s.x)) THEN [a EXCEPT !.rel = T(Trim(b.s.x), IF Trim(b.s.x) = "" THEN <<>> ELSE b.sm)] ELSE a,
                                                   p |-> FoldLeft(LAMBDA q, k : Warn(q, wIgnore, k.n), WarnIf(~RelOk(Trim(b.s.x)), p, wFormat, b.n), b.kids)]
                           [] ctx = "params" -> (LET h == ParseParams(b, a.params, p) IN [a |-> [a EXCEPT !.params = h.ps], p |-> h.p])
                           [] ctx = "attributes" -> (LET h == ReadAttributes(b, "", p) IN [a |-> [a EXCEPT !.attrs = h.x], p |-> h.p])
                           [] ctx = "headers" -> (LET h == ParseHeaders(b, a.headers, p) IN [a |-> [a EXCEPT !.headers = h.hs], p |-> Warn(h.p, wDeprecated, b.n)])
                           [] ctx \in {"request", "requestBody", "response", "responseBody"} -> AddPayload(a, b, p)
                           [] OTHER -> Loose(a, b, last, p)
                IN  ActionNested(r.a, bs, i + 1, LeftLast(last, ctx, bs, i + 1), r.p)
UriVars(u) == UNION {{IF EndsIn(u[i].vs[j], "*") THEN Upto(u[i].vs[j], Len(u[i].vs[j]) - 1) ELSE u[i].vs[j] : j \in 1..Len(u[i].vs)} : i \in {n \in 1..Len(u) : u[n].k = "e"}}
ParseAction(bs, i, p) ==
  LET b == bs[i]
      s == b.s
      a0 == [NewAction EXCEPT !.method = T(s.m, b.m),
                              !.name = IF s.k \in {"nm", "nmuri"} THEN T(s.x, b.m) ELSE NoText,
                              !.uri = IF s.k = "nmuri" THEN T(UriText(s.u), b.m) ELSE NoText,
                              !.vars = IF s.k = "nmuri" THEN UriVars(s.u) ELSE {}]
      ds == Describe(bs, i + 1, NoText, LAMBDA x : InAction(x) = "" /\ Kw(x) \notin AboveAction)
      r == ActionNested([a0 EXCEPT !.desc = ds.t], bs, ds.i, "", p)
      a == r.v
      p1 == IF a.uri.x = "" THEN r.p ELSE Unknown(a.params, a.vars, r.p, b.n)
      exs == Inject(a.headers, a.exs)
      lone == exs = <<>> \/ (exs[Len(exs)].rq # <<>> /\ exs[Len(exs)].rs = <<>>)
  IN  Out([a EXCEPT !.exs = exs, !.headers = <<>>], r.i, WarnIf(lone, p1, wEmpty, b.n))

(* resources *)
AddModel(v, b, p0) ==                           \* [v, p]
  LET r == ParsePayload(b, p0)
      p1 == WarnIf(v.model.name.x # "", r.p, wDuplicate, b.n)
      x == IF r.x.name.x = "" THEN [r.x EXCEPT !.name = v.name] ELSE r.x
      p2 == IF x.name.x = "" THEN Erred(p1, eModel, b.n) ELSE p1
      p3 == IF FindModel(p2, x.name.x) = 0 THEN [p2 EXCEPT !.models = Append(@, [k |-> x.name.x, v |-> x])] ELSE Erred(p2, eModel, b.n)
  IN  [v |-> [v EXCEPT !.model = x], p |-> p3]
LooseModel(v, b, last, p) ==
  IF Plain2(b) /\ last \in {"model", "modelBody"}
  THEN LET x == AddBody(v.model, TwoBreaks(CodeText2(b)), b.m)
           q == Warn(MaybeRef(b, p), wIndent, b.n)
           i == FindModel(q, x.name.x)
       IN  [v |-> [v EXCEPT !.model = x], p |-> IF i = 0 THEN q ELSE [q EXCEPT !.models[i].v.body = x.body]]
  ELSE [v |-> v, p |-> Warn(p, wIgnore, b.n)]
AboveResource == {"group", "resource", "ds"}
RECURSIVE ResourceNested(_, _, _, _, _)
\* the attributes of a resource are a type that is called like it
AddAttributes(v, b, p) ==
  LET r == ReadAttributes(b, v.name.x, p)
      twice == v.name.x # "" /\ v.name.x \in p.types
  IN  Out(IF twice THEN v ELSE [v EXCEPT !.attrs = r.x], 0, IF twice THEN Warn(r.p, wDuplicate, b.n) ELSE [r.p EXCEPT !.fresh = @ \cup ({v.name.x} \ {""})])
ResourceNested(v, bs, i, last, p) ==
  IF i > Len(bs) THEN Out(v, i, p)
  ELSE LET b == bs[i]
           ctx == InResource(b)
       IN  IF ctx = "" /\ Kw(b) \in AboveResource THEN Out(v, i, p)
           ELSE LET act == ctx = "action"
                    r == CASE act -> (LET h == ParseAction(bs, i, p)
                                          a == h.v
                                          twice == \E j \in 1..Len(v.acts) : v.acts[j].method.x = a.method.x /\ v.acts[j].uri.x = a.uri.x
                                          rel == a.rel.x # "" /\ \E j \in 1..Len(v.acts) : v.acts[j].rel.x = a.rel.x
                                          p1 == WarnIf(rel, WarnIf(twice, h.p, wDuplicate, b.n), wDuplicate, b.n)
                                      IN  Out([v EXCEPT !.acts = Append(@, a)], h.i, IF a.uri.x = "" THEN Unknown(a.params, v.vars, p1, b.n) ELSE p1))
                           [] ctx = "params" -> (LET h == ParseParams(b, <<>>, p) IN Out([v EXCEPT !.params = @ \o h.ps], i + 1, Unknown(h.ps, v.vars, h.p, b.n)))
                           [] ctx \in {"model", "modelBody"} -> (LET h == AddModel(v, b, p) IN Out(h.v, i + 1, h.p))
                           [] ctx = "headers" -> (LET h == ParseHeaders(b, v.headers, p) IN Out([v EXCEPT !.headers = h.hs], i + 1, Warn(h.p, wDeprecated, b.n)))
                           [] ctx = "attributes" -> (LET h == AddAttributes(v, b, p) IN Out(h.v, i + 1, h.p))
                           [] OTHER -> (LET h == LooseModel(v, b, last, p) IN Out(h.v, i + 1, h.p))
                IN  ResourceNested(r.v, bs, r.i, LeftLast(last, ctx, bs, r.i), r.p)
FinishResource(v) == [v EXCEPT !.acts = [i \in 1..Len(v.acts) |-> [v.acts[i] EXCEPT !.exs = Inject(v.headers, @)]], !.headers = <<>>]
ParseResource(bs, i, p) ==
  LET b == bs[i]
      s == b.s
      v0 == [NewResource EXCEPT !.uri = T(UriText(s.u), b.m), !.vars = UriVars(s.u),
                                !.name = IF s.k = "named" THEN T(s.x, b.m) ELSE IF s.k = "nmuri" THEN T(s.x, <<>>) ELSE NoText]
  IN  IF s.k \in {"muri", "nmuri"}
      THEN LET r == ParseAction(bs, i, p) IN Out([v0 EXCEPT !.acts = <<r.v>>], r.i, r.p)
      ELSE LET ds == Describe(bs, i + 1, NoText, LAMBDA x : ~WholeHeader(x) /\ InResource(x) = "" /\ Kw(x) \notin AboveResource)
               r == ResourceNested([v0 EXCEPT !.desc = ds.t], bs, ds.i, "", p)
           IN  Out(FinishResource(r.v), r.i, r.p)

(* groups and the whole *)
ResourceEl(v) == [k |-> "resource", v |-> v]
Uris(els) == {els[i].v.uri.x : i \in {j \in 1..Len(els) : els[j].k = "resource"}}
RECURSIVE AllUris(_), GroupNested(_, _, _, _, _)
AllUris(els) == Uris(els) \cup UNION {Uris(els[i].els) : i \in {j \in 1..Len(els) : els[j].k = "group"}}
GroupNested(els, bs, i, known, p) ==
  IF i > Len(bs) THEN Out(els, i, p)
  ELSE LET b == bs[i]
       IN  IF InGroup(b) # ""
           THEN LET r == ParseResource(bs, i, p)
                    twice == r.v.uri.x \in known \cup Uris(els)
                IN  GroupNested(Append(els, ResourceEl(r.v)), bs, r.i, known, WarnIf(twice, r.p, wDuplicate, b.n))
           ELSE IF ~Dependent(b) /\ Kw(b) \in {"group", "ds"} THEN Out(els, i, p)
           ELSE GroupNested(els, bs, i + 1, known, Warn(p, wIgnore, b.n))
ParseGroup(bs, i, known, p) ==
  LET ds == Describe(bs, i + 1, NoText, LAMBDA x : ~WholeHeader(x) /\ InGroup(x) = "" /\ Kw(x) \notin {"group", "ds"})
      els == IF ds.i = i + 1 THEN <<>> ELSE <<[k |-> "copy", v |-> ds.t]>>
  IN  GroupNested(els, bs, ds.i, known, p)
RECURSIVE BlueNested(_, _, _, _), Structures2(_, _, _, _)
\* data structures: what Out tells
Structures2(ts, bs, i, p) ==
  IF i > Len(bs) THEN Out(ts, i, p)
  ELSE LET b == bs[i]
       IN  IF b.k = "h" /\ b.s.k = "type"
           THEN LET r == ReadNamedType(bs, i, p)
                    twice == r.v.name \in p.types
                IN  Structures2(IF twice THEN ts ELSE Append(ts, r.v), bs, IF r.i > i THEN r.i ELSE i + 1, IF twice THEN Warn(r.p, wDuplicate, b.n) ELSE [r.p EXCEPT !.fresh = @ \cup {r.v.name}])
           ELSE IF Kw(b) \in {"ds", "group", "resource"} THEN Out(ts, i, p)
           ELSE Structures2(ts, bs, i + 1, Warn(p, wIgnore, b.n))
\* the names of types count once the group they stand in is complete
Settled(p) == [p EXCEPT !.types = @ \cup p.fresh, !.fresh = {}]
BlueNested(d, bs, i, p) ==
  IF i > Len(bs) THEN Out(d, i, p)
  ELSE LET b == bs[i]
           known == AllUris(d.els)
       IN  CASE InBlueprint(b) = "resource" ->
                  (LET r == GroupNested(<<>>, bs, i, known, p) IN BlueNested([d EXCEPT !.els = @ \o r.v], bs, r.i, Settled(r.p)))
             [] InBlueprint(b) = "group" ->
                  (LET r == ParseGroup(bs, i, known, p)
                       twice == \E j \in 1..Len(d.els) : d.els[j].k = "group" /\ d.els[j].name.x = b.s.x
                   IN  BlueNested([d EXCEPT !.els = Append(@, [k |-> "group", name |-> T(b.s.x, b.m), els |-> r.v])], bs, r.i, Settled(WarnIf(twice, r.p, wDuplicate, b.n))))
             [] InBlueprint(b) = "ds" ->
                  (LET r == Structures2(<<>>, bs, i + 1, p) IN BlueNested([d EXCEPT !.els = Append(@, [k |-> "ds", els |-> r.v])], bs, r.i, Settled(r.p)))
             [] OTHER -> BlueNested(d, bs, i + 1, Warn(p, wIgnore, b.n))
KeyValue(l) == LET c == PlaceOf(l, ":", 1)
               IN  IF c = 0 THEN <<>> ELSE LET k == Trim(Upto(l, c - 1))  v == Trim(From(l, c + 1)) IN IF k = "" \/ v = "" THEN <<>> ELSE <<k, v>>
RECURSIVE Metadata(_, _, _, _)
Metadata(d, bs, i, p) ==
  IF i > Len(bs) \/ bs[i].k # "p" THEN Out(d, i, p)
  ELSE LET b == bs[i]
           kv == SelectSeq([j \in 1..Len(b.ls) |-> KeyValue(b.ls[j])], LAMBDA x : x # <<>>)
           all == Len(kv) = Len(b.ls)
           dup == {kv[j][1] : j \in {n \in 1..Len(kv) : \E o \in (n + 1)..Len(kv) : kv[o][1] = kv[n][1]}}
           p1 == IF all THEN FoldLeft(LAMBDA q, j : Warn(q, wDuplicate, b.n), p, [j \in 1..Cardinality(dup) |-> j]) ELSE Warn(p, wFormat, b.n)
       IN  IF kv = <<>> THEN Out(d, i, p)
           ELSE Metadata([d EXCEPT !.meta = @ \o [j \in 1..Len(kv) |-> [k |-> kv[j][1], v |-> kv[j][2], m |-> b.m]]], bs, i + 1, p1)
\* references to models defined behind them
LatePayload(x, p, Check(_, _, _)) ==
  IF x.ref.st # "pending" THEN [x |-> x, p |-> p]
  ELSE LET r == IF FindModel(p, x.ref.id) = 0 THEN [x |-> [x EXCEPT !.ref.st = "unresolved"], p |-> Erred(p, eModel, x.ref.n)]
                ELSE Refer([x EXCEPT !.ref.st = "resolved"], p)
       IN  [r EXCEPT !.p = Check(r.x, r.p, x.ref.n)]
LateList(xs, p, Check(_, _, _)) == FoldLeft(LAMBDA acc, x : LET r == LatePayload(x, acc.p, Check) IN [xs |-> Append(acc.xs, r.x), p |-> r.p], [xs |-> <<>>, p |-> p], xs)
LateAll(xs, p, F(_, _)) == FoldLeft(LAMBDA acc, x : LET r == F(x, acc.p) IN [xs |-> Append(acc.xs, r.x), p |-> r.p], [xs |-> <<>>, p |-> p], xs)
LateExample(e, p) == LET q == LateList(e.rq, p, CheckRequest)
                         s == LateList(e.rs, q.p, CheckResponse)
                     IN  [x |-> [rq |-> q.xs, rs |-> s.xs], p |-> s.p]
LateAction(a, p) == LET r == LateAll(a.exs, p, LateExample) IN [x |-> [a EXCEPT !.exs = r.xs], p |-> r.p]
LateResource(e, p) == IF e.k # "resource" THEN [x |-> e, p |-> p]
                      ELSE LET r == LateAll(e.v.acts, p, LateAction) IN [x |-> [e EXCEPT !.v.acts = r.xs], p |-> r.p]
LateElement(e, p) == IF e.k # "group" THEN LateResource(e, p) ELSE LET r == LateAll(e.els, p, LateResource) IN [x |-> [e EXCEPT !.els = r.xs], p |-> r.p]
NewBlueprint == [name |-> NoText, desc |-> NoText, meta |-> <<>>, els |-> <<>>]
Typos(bs, i, p) == FoldLeft(LAMBDA q, j : WarnIf(bs[j].k = "h" /\ bs[j].s.k = "typo", q, wUri, bs[j].n), p, [j \in 1..(Len(bs) - i + 1) |-> i + j - 1])
ParseBlueprint(bs, needName) ==                 \* [d, p]
  LET me == Metadata(NewBlueprint, bs, 1, NewParse)
      i == me.i
      head == i <= Len(bs) /\ bs[i].k = "h"
      only == head /\ InBlueprint(bs[i]) # ""
      d1 == IF head /\ ~only THEN [me.v EXCEPT !.name = T(HeadText(bs[i].s), bs[i].m)] ELSE me.v
      first == IF head THEN i + 1 ELSE i        \* a block that is not a header is described even if it is an item
      ds == IF only THEN [t |-> NoText, i |-> i] ELSE Describe(bs, first, NoText, LAMBDA x : InBlueprint(x) = "")
      r == BlueNested([d1 EXCEPT !.desc = ds.t], bs, ds.i, ScanTypes(bs, ds.i, Typos(bs, ds.i, me.p)))
      l == LateAll(r.v.els, r.p, LateElement)
      d == [r.v EXCEPT !.els = l.xs]
  IN  IF bs = <<>> THEN [d |-> NewBlueprint, p |-> NewParse]
      ELSE [d |-> d, p |-> IF d.name.x # "" THEN l.p
                           ELSE IF needName THEN Erred(l.p, eBusiness, bs[1].n)
                           ELSE WarnIf(d.desc.x # "", l.p, wName, bs[1].n)]

(* -------------------------------------------------------- as API Elements *)
Att(e, k, x) == [e EXCEPT !.a = Append(@, [k |-> k, el |-> x])]
Met(e, k, x) == [e EXCEPT !.m = Append(@, [k |-> k, el |-> x])]
Named2(e, n) == [e EXCEPT !.n = n]
List(n, c) == Named2(MkC("array", c), n)
Classes(e, x) == Met(e, "classes", MkC("array", <<Str(x)>>))
Mapped(e, m, o) == IF o.maps /\ m # <<>> THEN Att(e, "sourceMap", [lines |-> m]) ELSE e
Prim(t, o) == Mapped(Str(t.x), t.m, o)
If(c, x) == IF c THEN <<x>> ELSE <<>>
\* attributes and named types; o tells all the types there are
Structure(x, o) == Named2(MkC("holder", <<TypeEl(x, o.p).el>>), "dataStructure")
Structures3(x, o) == If(~NoAttributes(x), Structure(x, o))
\* the enumerations of a type stand somewhere, and those of another type never stand there
RECURSIVE Standing(_, _)
Standing(e, at) ==
  [e EXCEPT !.c = [i \in 1..Len(@) |-> Standing(@[i], at \o "." \o ToString(i))],
            !.a = [i \in 1..Len(@) |-> IF @[i].k # "enumerations" THEN @[i]
                     ELSE [@[i] EXCEPT !.el.c = [j \in 1..Len(@) |-> [@[j] EXCEPT !.a = Append(@, [k |-> "at", el |-> Str(at \o ":" \o ToString(j))])]]]]]
Whole(x, o) == LET e == Standing(TypeEl(x, o.p).el, "")
                   r == Expand(e, o.reg, <<>>)
               IN  IF r.none THEN e ELSE r.el
RECURSIVE OctetsIn(_)
OctetsIn(v) == [v EXCEPT !.v = OctetsOf(@), !.ks = [i \in 1..Len(@) |-> OctetsOf(@[i])], !.c = [i \in 1..Len(@) |-> OctetsIn(@[i])]]
TextOf(os) == Join([i \in 1..Len(os) |-> CharOf[os[i]]])
Copies(t, o) == If(t.x # "", Named2(Prim(t, o), "copy"))
PairEl(h, o) == Mapped(Member(h.k, Str(h.v)), h.m, o)
Base(x, o) == IF x.ex.x = "" THEN Empty("enum") ELSE MkC("enum", <<Prim(x.ex, o)>>)
ParamEl(x, o) ==
  LET one == IF x.ex.x = "" THEN Empty("string") ELSE Prim(x.ex, o)
      many == Att(IF x.def.x = "" THEN Base(x, o) ELSE Att(Base(x, o), "default", MkC("enum", <<Prim(x.def, o)>>)),
                  "enumerations", MkC("array", [i \in 1..Len(x.values) |-> Prim(x.values[i], o)]))
      value == IF x.values = <<>> THEN (IF x.def.x = "" THEN one ELSE Att(one, "default", Prim(x.def, o))) ELSE many
      e0 == MkC("member", <<Prim(x.name, o), value>>)
      e1 == IF x.desc.x = "" THEN e0 ELSE Met(e0, "description", Prim(x.desc, o))
      e2 == IF x.type.x = "" THEN e1 ELSE Met(e1, "title", Prim(x.type, o))
  IN  Att(e2, "typeAttributes", MkC("array", <<Str(IF x.use = "optional" THEN "optional" ELSE "required")>>))
\* of those of one name, the last
ParamsEl(ps, o) == Named2(MkC("object", FoldLeft(LAMBDA acc, x : ObjPush(acc, ParamEl(x, o)), <<>>, ps)), "hrefVariables")
(* media types: [ok, main, sub, suf, ps] *)
Alnum(c) == OneOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", c)
RECURSIVE NameStop(_, _), PlusNames(_, _), MediaParams(_, _)
NameStop(t, i) == IF i <= Len(t) /\ (Alnum(CharAt(t, i)) \/ OneOf("!#$&^_-.", CharAt(t, i))) THEN NameStop(t, i + 1) ELSE i
NameFrom(t, i) == IF i <= Len(t) /\ Alnum(CharAt(t, i)) THEN NameStop(t, i) ELSE 0
\* the ends of the names from i on that "+" separates
PlusNames(t, i) == LET e == NameFrom(t, i)
                   IN  IF e = 0 THEN <<>> ELSE IF e <= Len(t) /\ CharAt(t, e) = "+" THEN <<e>> \o PlusNames(t, e + 1) ELSE <<e>>
\* where a token ends, and where a quoted text does (0: nowhere), and what that stands for
RECURSIVE TokenStop(_, _), QuotedStop(_, _), Unpaired(_)
TokenStop(t, i) == IF i <= Len(t) /\ (Alnum(CharAt(t, i)) \/ OneOf("!#$&^_-.%'*+`|~", CharAt(t, i))) THEN TokenStop(t, i + 1) ELSE i
QuotedStop(t, i) == IF i > Len(t) THEN 0 ELSE IF CharAt(t, i) = "\"" THEN i + 1 ELSE IF CharAt(t, i) = "\\" THEN QuotedStop(t, i + 2) ELSE QuotedStop(t, i + 1)
Unpaired(x) == IF x = "" THEN "" ELSE IF CharAt(x, 1) = "\\" THEN SubSeq(x, 2, 2) \o Unpaired(SubSeq(x, 3, Len(x))) ELSE CharAt(x, 1) \o Unpaired(SubSeq(x, 2, Len(x)))
\* the parameters from i on, which blanks or semicolons separate
MediaParams(t, i) ==
  LET e == NameFrom(t, i)
      q == e > 0 /\ e < Len(t) /\ CharAt(t, e) = "="
      v == e + 1
      quoted == q /\ CharAt(t, v) = "\""
      f == IF ~q THEN 0 ELSE IF quoted THEN QuotedStop(t, v + 1) ELSE IF TokenStop(t, v) = v THEN 0 ELSE TokenStop(t, v)
      b == BlanksEnd(t, f)
      n == IF b <= Len(t) /\ CharAt(t, b) = ";" THEN BlanksEnd(t, b + 1) ELSE b
  IN  IF f = 0 THEN <<>>
      ELSE <<[k |-> SubSeq(t, i, e - 1), v |-> IF quoted THEN Unpaired(SubSeq(t, v + 1, f - 2)) ELSE SubSeq(t, v, f - 1)]>>
           \o (IF n > f THEN MediaParams(t, n) ELSE <<>>)
NoMedia == [ok |-> FALSE, main |-> "", sub |-> "", suf |-> "", ps |-> <<>>]
MediaOf(t) ==
  LET e == NameFrom(t, 1)
      es == IF e > 0 /\ e <= Len(t) /\ CharAt(t, e) = "/" THEN PlusNames(t, e + 1) ELSE <<>>
      n == Len(es)
      whole == n > 1 /\ ~(es[n] <= Len(t) /\ CharAt(t, es[n]) = "+")
      stop == IF whole THEN es[n] ELSE es[1]
      semi == BlanksEnd(t, stop)
  IN  IF es = <<>> THEN NoMedia
      ELSE [ok |-> TRUE, main |-> Upto(t, e - 1), sub |-> SubSeq(t, e + 1, (IF whole THEN es[n - 1] ELSE es[1]) - 1),
            suf |-> IF whole THEN SubSeq(t, es[n - 1] + 1, es[n] - 1) ELSE "",
            ps |-> IF semi <= Len(t) /\ CharAt(t, semi) = ";" THEN MediaParams(t, BlanksEnd(t, semi + 1)) ELSE <<>>]
QuotedIf(v) == IF v = "" \/ \E i \in 1..Len(v) : OneOf("()<>@,;:\\\"/[]?={} ", CharAt(v, i))
               THEN "\"" \o Join([i \in 1..Len(v) |-> IF OneOf("\\\"", CharAt(v, i)) THEN "\\" \o CharAt(v, i) ELSE CharAt(v, i)]) \o "\"" ELSE v
MediaText(t) == LET m == MediaOf(t)
                IN  IF ~m.ok THEN "" ELSE m.main \o "/" \o m.sub \o (IF m.suf = "" THEN "" ELSE "+" \o m.suf)
                                         \o Join([i \in 1..Len(m.ps) |-> "; " \o m.ps[i].k \o "=" \o QuotedIf(m.ps[i].v)])
JsonMedia(t) == LET m == MediaOf(t) IN LowerStr(m.main) = "application" /\ LowerStr(IF m.suf = "" THEN m.sub ELSE m.suf) = "json"
AssetEl(t, class, ct, o) == LET e == Mapped(Classes(Named2(Str(t.x), "asset"), class), t.m, o) IN IF ct = "" THEN e ELSE Att(e, "contentType", Str(ct))
PayloadBody(e0, x, up, o) ==                    \* up: attributes of the action, for what has none
  LET attrs == IF NoAttributes(x.attrs) THEN up ELSE x.attrs
      made == ~NoAttributes(attrs) /\ JsonMedia(HeaderOf(x.headers, "Content-Type"))
      gen(v, class, type) == AssetEl(T(TextOf(WriteJson(OctetsIn(v), FALSE)), <<>>), class, type, o)
       e1 == Mapped(e0, x.m, o)
      e2 == IF x.params = <<>> THEN e1 ELSE Att(e1, "hrefVariables", ParamsEl(x.params, o))
      e3 == IF x.headers = <<>> THEN e2 ELSE Att(e2, "headers", List("httpHeaders", [i \in 1..Len(x.headers) |-> PairEl(x.headers[i], o)]))
      ct == HeaderOf(x.headers, "Content-Type")
  IN  [e3 EXCEPT !.c = Copies(x.desc, o)
         \o Structures3(x.attrs, o)
         \o (IF x.body.x # "" THEN <<AssetEl(x.body, "messageBody", MediaText(ct), o)>>
             ELSE If(made /\ ~o.bodies, gen(GenBody(Whole(attrs, o)), "messageBody", MediaText(ct))))
         \o (IF x.schema.x # "" THEN <<AssetEl(x.schema, "messageBodySchema", IF JsonMedia(ct) THEN "application/schema+json" ELSE "text/plain", o)>>
             ELSE If(made /\ ~o.schemas, gen(GenSchema(Whole(attrs, o)), "messageBodySchema", "application/schema+json")))]
RequestEl(a, xs, o) ==                          \* xs: <<>> when there is no request
  LET e == Att(List("httpRequest", <<>>), "method", Prim(a.method, o))
  IN  IF xs = <<>> THEN e
      ELSE PayloadBody(IF xs[1].name.x = "" THEN e ELSE Met(e, "title", Prim(xs[1].name, o)), xs[1], a.attrs, o)
ResponseEl(xs, o) == LET e == List("httpResponse", <<>>) IN IF xs = <<>> THEN e ELSE PayloadBody(Att(e, "statusCode", Prim(xs[1].name, o)), xs[1], NoType, o)
Transaction(a, q, s, o) == List("httpTransaction", <<RequestEl(a, q, o), ResponseEl(s, o)>>)
ExampleEls(a, e, o) ==
  LET rs == IF e.rs = <<>> THEN <<<<>>>> ELSE [i \in 1..Len(e.rs) |-> <<e.rs[i]>>]
      rq == IF e.rq = <<>> THEN <<<<>>>> ELSE [i \in 1..Len(e.rq) |-> <<e.rq[i]>>]
  IN  IF e.rq = <<>> /\ e.rs = <<>> THEN <<>>
      ELSE Concat([i \in 1..Len(rq) |-> [j \in 1..Len(rs) |-> Transaction(a, rq[i], rs[j], o)]])
ActionEl(a, o) ==
  LET e0 == Met(List("transition", Copies(a.desc, o) \o Concat([i \in 1..Len(a.exs) |-> ExampleEls(a, a.exs[i], o)])), "title", Prim(a.name, o))
      e1 == IF a.rel.x = "" THEN e0 ELSE Att(e0, "relation", Prim(a.rel, o))
      e2 == IF a.uri.x = "" THEN e1 ELSE Att(e1, "href", Prim(a.uri, o))
      e3 == IF NoAttributes(a.attrs) THEN e2 ELSE Att(e2, "data", Structure(a.attrs, o))
  IN  IF a.params = <<>> THEN e3 ELSE Att(e3, "hrefVariables", ParamsEl(a.params, o))
ResourceElement(v, o) ==
  LET e == Att(Met(List("resource", Copies(v.desc, o) \o Structures3(v.attrs, o) \o [i \in 1..Len(v.acts) |-> ActionEl(v.acts[i], o)]), "title", Prim(v.name, o)), "href", Prim(v.uri, o))
  IN  IF v.params = <<>> THEN e ELSE Att(e, "hrefVariables", ParamsEl(v.params, o))
RECURSIVE ElementsOf(_, _)
ElementsOf(els, o) ==
  Concat([i \in 1..Len(els) |->
    CASE els[i].k = "copy" -> Copies(els[i].v, o)
      [] els[i].k = "ds" -> <<Classes(List("category", [j \in 1..Len(els[i].els) |-> Structure(els[i].els[j], o)]), "dataStructures")>>
      [] els[i].k = "resource" -> <<ResourceElement(els[i].v, o)>>
      [] els[i].k = "group" -> <<Met(Classes(List("category", ElementsOf(els[i].els, o)), "resourceGroup"), "title", Prim(els[i].name, o))>>])
BlueprintEl(d, o) ==
  LET e == Met(Classes(List("category", Copies(d.desc, o) \o ElementsOf(d.els, o)), "api"), "title", Prim(d.name, o))
  IN  IF d.meta = <<>> THEN e
      ELSE Att(e, "metadata", MkC("array", [i \in 1..Len(d.meta) |->
             Mapped(Classes(Member(d.meta[i].k, Str(d.meta[i].v)), "user"), d.meta[i].m, o)]))

(* ------------------------------------------------------------ the result *)
\* all the types of a document, and all the attributes
RECURSIVE TypesOf(_), AttributesIn(_)
TypesOf(els) == Concat([i \in 1..Len(els) |-> CASE els[i].k = "ds" -> els[i].els
                                                [] els[i].k = "group" -> TypesOf(els[i].els)
                                                [] els[i].k = "resource" -> If(~NoAttributes(els[i].v.attrs), els[i].v.attrs)
                                                [] OTHER -> <<>>])
\* in the order of the transactions: every request with every response
\* x are attributes, w what is made of them or of those of the action: everything that stands for something else is put there
OfPayload(x, up) == [x |-> x.attrs, w |-> IF NoAttributes(x.attrs) THEN up ELSE x.attrs]
OfExample(e, up) == LET rs == [j \in 1..Len(e.rs) |-> OfPayload(e.rs[j], NoType)]
                    IN  IF e.rq = <<>> THEN rs ELSE Concat([j \in 1..Len(e.rq) |-> <<OfPayload(e.rq[j], up)>> \o rs])
OfAction(a) == <<[x |-> a.attrs, w |-> NoType]>> \o Concat([i \in 1..Len(a.exs) |-> OfExample(a.exs[i], a.attrs)])
AttributesIn(els) == Concat([i \in 1..Len(els) |-> CASE els[i].k = "group" -> AttributesIn(els[i].els)
                                                     [] els[i].k = "resource" -> <<[x |-> els[i].v.attrs, w |-> NoType]>> \o Concat([j \in 1..Len(els[i].v.acts) |-> OfAction(els[i].v.acts[j])])
                                                     [] OTHER -> <<>>])
\* the types of what is read, as elements, and what is wrong with them: [reg, p]
Typed(els) ==
  LET r == Register(TypesOf(els), NewParse)
      reg == TLCEval([i \in 1..Len(r.reg) |-> [r.reg[i] EXCEPT !.el = Standing(@, r.reg[i].k)]])
      goes(w, p) == Expand(Standing(TypeEl(w, p).el, ""), reg, <<>>).err = ""
      one(q, y) == LET p == IF NoAttributes(y.x) THEN q ELSE TypeEl(y.x, q).p
                   IN  IF NoAttributes(y.w) \/ p.stop THEN p ELSE IF goes(y.w, p) THEN p ELSE Thrown(p, eMson, 0)
  IN  [reg |-> reg, p |-> FoldLeft(one, r.p, AttributesIn(els))]
Parse(doc, o0) ==
  LET r0 == ParseBlueprint(PlaceBlocks(doc, 1, FALSE), o0.name)
      t == IF r0.p.err # <<>> THEN [reg |-> <<>>, p |-> NewParse @@ [late |-> <<>>]] ELSE TLCEval(Typed(r0.d.els))
      o == o0 @@ [reg |-> t.reg, p |-> t.p]
      r == [r0 EXCEPT !.p.err = @ \o t.p.err, !.p.notes = @ \o [i \in 1..Len(t.p.late) |-> [code |-> eMson, n |-> t.p.late[i][1]]]]
      bad == r.p.err # <<>>
  IN  [rc |-> IF bad THEN r.p.err[1].code ELSE 0,
       cats |-> IF bad THEN 0 ELSE 1,
       ast |-> IF bad THEN Nil ELSE BlueprintEl(r.d, o),
       notes |-> (IF bad THEN <<[cls |-> "error", code |-> r.p.err[1].code, line |-> r.p.err[1].n]>> ELSE <<>>)
                 \o [i \in 1..Len(r.p.notes) |-> [cls |-> "warning", code |-> r.p.notes[i].code, line |-> r.p.notes[i].n]]]

\* attributes and metadata in the order the harness lists them
Alphabetical == <<"classes", "contentType", "data", "default", "description", "enumerations", "headers", "href", "hrefVariables", "id", "metadata",
                  "method", "path", "relation", "samples", "sourceMap", "statusCode", "title", "typeAttributes", "variable">>
RECURSIVE Ordered(_)
OrderedInfo(x) == Concat([i \in 1..Len(Alphabetical) |-> LET y == SelectSeq(x, LAMBDA z : z.k = Alphabetical[i])
                                                         IN  [j \in 1..Len(y) |-> [y[j] EXCEPT !.el = Ordered(@)]]])
Ordered(e) == IF "t" \in DOMAIN e THEN [e EXCEPT !.a = OrderedInfo(@), !.m = OrderedInfo(@), !.c = [i \in 1..Len(@) |-> Ordered(@[i])]] ELSE e

Leaves == [leak |-> 0]
ApplyBlue(o) == CASE o.op = "parse" -> [Parse(o.doc, o.opts) EXCEPT !.ast = Ordered(@)]
                  [] o.op = "reset" -> Leaves
                  [] OTHER -> <<>>
\* the text of the operation is that of its document
Readable(o) == o.op = "parse" => o.text = DocText(o.doc)
\* notes may come in any order
Times(x, xs) == Cardinality({i \in 1..Len(xs) : xs[i] = x})
SameNotes(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Times(xs[i], xs) = Times(xs[i], ys)
\* data structures without their source maps: those are held against the document by StructuresPlaced
RECURSIVE Unmapped(_), BareStructures(_)
NoMaps(x) == LET y == SelectSeq(x, LAMBDA z : z.k # "sourceMap") IN [i \in 1..Len(y) |-> [y[i] EXCEPT !.el = Unmapped(@)]]
Unmapped(e) == IF "t" \notin DOMAIN e THEN e ELSE [e EXCEPT !.a = NoMaps(@), !.m = NoMaps(@), !.c = [i \in 1..Len(@) |-> Unmapped(@[i])]]
BareStructures(e) == IF "t" \notin DOMAIN e THEN e ELSE IF e.n = "dataStructure" THEN Unmapped(e) 
                     ELSE [e EXCEPT !.c = [i \in 1..Len(@) |-> BareStructures(@[i])], !.a = [i \in 1..Len(@) |-> [@[i] EXCEPT !.el = BareStructures(@)]]]
\* what in a data structure has a source map: what names or tells something, and every value a member was given; the map has the lines,
\* all of them of the document, where the text is
LinesMapped(e) == LET y == SelectSeq(e.a, LAMBDA z : z.k = "sourceMap") IN IF y = <<>> THEN <<>> ELSE y[1].el.lines
HasText(t, x) == \E i \in 1..(Len(t) - Len(x) + 1) : SubSeq(t, i, i + Len(x) - 1) = x
TextTold(e, ls) == \A l \in {Trim(x) : x \in ToSet(LinesOf(e.v))} \ {""} : \E i \in 1..Len(ls) : HasText(ls[i], l)
PlacedOne(e, role, doc) ==
  LET ls == LinesMapped(e)
  IN  /\ \A i \in 1..Len(ls) : \E l \in doc : HasText(l, ls[i])
      /\ e.t = "string" /\ e.s /\ ls # <<>> => TextTold(e, ls)
      /\ role \in {"key", "id"} => Len(ls) = 1
      /\ role = "description" => ls # <<>>
      /\ role = "value" /\ e.s => ls # <<>>
      /\ role = "about" => ls = <<>>
RECURSIVE PlacedIn(_, _, _), StructuresPlaced(_, _)
PlacedIn(e, role, doc) ==
  IF "t" \notin DOMAIN e THEN TRUE
  ELSE /\ PlacedOne(e, role, doc)
       /\ \A i \in 1..Len(e.m) : PlacedIn(e.m[i].el, IF e.m[i].k \in {"id", "description"} THEN e.m[i].k ELSE "", doc)
       /\ \A i \in 1..Len(e.a) : e.a[i].k # "sourceMap" => PlacedIn(e.a[i].el, "about", doc)
       /\ \A i \in 1..Len(e.c) : PlacedIn(e.c[i], IF e.t # "member" THEN "" ELSE IF i = 1 THEN "key" ELSE "value", doc)
StructuresPlaced(e, doc) == IF "t" \notin DOMAIN e THEN TRUE
                  ELSE IF e.n = "dataStructure" THEN \A i \in 1..Len(e.c) : PlacedIn(e.c[i], "", doc)
                  ELSE (\A i \in 1..Len(e.c) : StructuresPlaced(e.c[i], doc)) /\ (\A i \in 1..Len(e.a) : StructuresPlaced(e.a[i].el, doc))
Agree(o, r, res) ==
  IF "notes" \notin DOMAIN r THEN r = res
  ELSE /\ r.rc = res.rc /\ r.cats = res.cats /\ SameNotes(r.notes, res.notes)
       /\ IF ~o.opts.maps THEN r.ast = res.ast
          ELSE /\ BareStructures(r.ast) = BareStructures(res.ast)
               /\ StructuresPlaced(res.ast, ToSet(LinesOf(o.text)))
=============================================================================

------------------------------- MODULE Values -------------------------------
(* Values (the JSON-like data drafter writes): the containers, the JSON and   *)
(* YAML writers with readers for what they write, and the three generators of *)
(* values from elements: the serialised tree, the example body, the schema.   *)
(*                                                                            *)
(* A value is [k kind, v text of strings and numbers, ks keys of an object,   *)
(* c children].  Text is a string or a sequence of octets (for the writers).  *)
EXTENDS Elements, Text, Json

Val(k, v, ks, c) == [k |-> k, v |-> v, ks |-> ks, c |-> c]
VNull      == Val("null", "", <<>>, <<>>)
VTrue      == Val("true", "", <<>>, <<>>)
VFalse     == Val("false", "", <<>>, <<>>)
VStr(x)    == Val("string", x, <<>>, <<>>)
VNum(x)    == Val("number", x, <<>>, <<>>)
VArr(c)    == Val("array", "", <<>>, c)
VObj(ks, c) == Val("object", "", ks, c)
NoProps    == VObj(<<>>, <<>>)
Prop(k, x) == VObj(<<k>>, <<x>>)
Props(a, b) == VObj(a.ks \o b.ks, a.c \o b.c)              \* appended without looking

KeyIdx(o, k) == FirstIdx(o.ks, LAMBDA x : x = k)
HasKey(o, k) == KeyIdx(o, k) # 0
GetKey(o, k) == o.c[KeyIdx(o, k)]

RECURSIVE EqV(_, _)
EqV(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k \in {"string", "number"} -> x.v = y.v
       [] x.k = "object" -> /\ Len(x.c) = Len(y.c)
                            /\ \A i \in 1..Len(x.c) : \E j \in 1..Len(y.c) : x.ks[i] = y.ks[j] /\ EqV(x.c[i], y.c[j])
       [] x.k = "array" -> Len(x.c) = Len(y.c) /\ \A i \in 1..Len(x.c) : EqV(x.c[i], y.c[i])
       [] OTHER -> TRUE

\* the same down to the order of members (what null, true and containers hold as text does not matter)
RECURSIVE Same(_, _)
Same(x, y) == /\ x.k = y.k /\ x.ks = y.ks /\ Len(x.c) = Len(y.c)
              /\ (x.k \in {"string", "number"} => x.v = y.v)
              /\ \A i \in 1..Len(x.c) : Same(x.c[i], y.c[i])

PutProp(o, k, x) == IF HasKey(o, k) THEN [o EXCEPT !.c[KeyIdx(o, k)] = x]
                    ELSE [o EXCEPT !.ks = Append(@, k), !.c = Append(@, x)]
PutItem(a, x) == IF \E i \in 1..Len(a.c) : EqV(a.c[i], x) THEN a ELSE [a EXCEPT !.c = Append(@, x)]
PutAllProps(o, p) == FoldLeft(LAMBDA acc, i : PutProp(acc, p.ks[i], p.c[i]), o, [i \in 1..Len(p.c) |-> i])

\* ------------------------------------------------------------ writing JSON
Quote == 34
Hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
HexUp == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
RECURSIVE HexDigits(_, _, _)
HexDigits(c, n, h) == IF n = 0 THEN <<>> ELSE Append(HexDigits(c \div 16, n - 1, h), h[(c % 16) + 1])
JsonByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 8 -> <<92, 98>> [] b = 12 -> <<92, 102>>
                 [] b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>>
                 [] b < 32 -> <<92, 117>> \o HexDigits(b, 4, Hex)
                 [] OTHER -> <<b>>
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
JsonString(s) == <<Quote>> \o Concat([i \in 1..Len(s) |-> JsonByte(s[i])]) \o <<Quote>>
Blanks(n) == [i \in 1..(2 * n) |-> 32]
Break(n) == <<10>> \o Blanks(n)
Lit_null == <<110, 117, 108, 108>>
Lit_true == <<116, 114, 117, 101>>
Lit_false == <<102, 97, 108, 115, 101>>
Commas(ss) == Concat([i \in 1..Len(ss) |-> IF i < Len(ss) THEN Append(ss[i], 44) ELSE ss[i]])
RECURSIVE JsonText(_, _, _)
JsonText(x, packed, d) ==
  LET in == IF packed THEN <<>> ELSE Break(d + 1)
      out == IF packed \/ x.c = <<>> THEN <<>> ELSE Break(d)
  IN  CASE x.k = "null" -> Lit_null
        [] x.k = "true" -> Lit_true
        [] x.k = "false" -> Lit_false
        [] x.k = "number" -> x.v
        [] x.k = "string" -> JsonString(x.v)
        [] x.k = "array" -> <<91>> \o Commas([i \in 1..Len(x.c) |-> in \o JsonText(x.c[i], packed, d + 1)]) \o out \o <<93>>
        [] x.k = "object" -> <<123>> \o Commas([i \in 1..Len(x.c) |-> in \o JsonString(x.ks[i]) \o <<58>> \o (IF packed THEN <<>> ELSE <<32>>)
                                                                    \o JsonText(x.c[i], packed, d + 1)]) \o out \o <<125>>
WriteJson(x, packed) == JsonText(x, packed, 0)

\* -------------------------------------------------- reading JSON (RFC 8259)
(* a reader returns [ok, x, i]: what was read and where it ends *)
Bad == [ok |-> FALSE, x |-> <<>>, i |-> 0]
Got(x, i) == [ok |-> TRUE, x |-> x, i |-> i]
Oct(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
HexVal(b) == CASE b \in 48..57 -> b - 48 [] b \in 97..102 -> b - 87 [] b \in 65..70 -> b - 55 [] OTHER -> -1
RECURSIVE ReadHex(_, _, _, _)
ReadHex(t, i, n, acc) == IF n = 0 THEN acc ELSE IF HexVal(Oct(t, i)) < 0 THEN -1 ELSE ReadHex(t, i + 1, n - 1, acc * 16 + HexVal(Oct(t, i)))
JsonEscape == [b \in {34, 92, 47, 98, 102, 110, 114, 116} |->
                 CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> b]
RECURSIVE ReadChars(_, _, _), SkipWs(_, _), ReadJsonAt(_, _), ReadItems(_, _, _), ReadProps(_, _, _), NumEnd(_, _)
ReadChars(t, i, acc) ==
  LET b == Oct(t, i)
  IN  IF i > Len(t) \/ b < 32 THEN Bad
      ELSE IF b = 34 THEN Got(acc, i + 1)
      ELSE IF b # 92 THEN ReadChars(t, i + 1, Append(acc, b))
      ELSE IF Oct(t, i + 1) = 117 THEN LET c == ReadHex(t, i + 2, 4, 0) IN IF c < 0 THEN Bad ELSE ReadChars(t, i + 6, acc \o Encode(c))
      ELSE IF Oct(t, i + 1) \in DOMAIN JsonEscape THEN ReadChars(t, i + 2, Append(acc, JsonEscape[Oct(t, i + 1)]))
      ELSE Bad
SkipWs(t, i) == IF Oct(t, i) \in {9, 10, 13, 32} THEN SkipWs(t, i + 1) ELSE i
NumEnd(t, i) == IF Oct(t, i) \in (48..57) \cup {43, 45, 46, 69, 101} THEN NumEnd(t, i + 1) ELSE i
Starts(t, i, w) == SubSeq(t, i, Min2(i + Len(w) - 1, Len(t))) = w
ReadItems(t, i, acc) ==
  LET r == ReadJsonAt(t, i)
      j == SkipWs(t, r.i)
  IN  IF ~r.ok THEN Bad
      ELSE IF Oct(t, j) = 93 THEN Got(Append(acc, r.x), j + 1)
      ELSE IF Oct(t, j) = 44 THEN ReadItems(t, j + 1, Append(acc, r.x)) ELSE Bad
ReadProps(t, i, acc) ==
  LET k == SkipWs(t, i)
      s == IF Oct(t, k) = 34 THEN ReadChars(t, k + 1, <<>>) ELSE Bad
      m == SkipWs(t, s.i)
      r == IF s.ok /\ Oct(t, m) = 58 THEN ReadJsonAt(t, m + 1) ELSE Bad
      j == SkipWs(t, r.i)
      p == VObj(Append(acc.ks, s.x), Append(acc.c, r.x))
  IN  IF ~r.ok THEN Bad
      ELSE IF Oct(t, j) = 125 THEN Got(p, j + 1)
      ELSE IF Oct(t, j) = 44 THEN ReadProps(t, j + 1, p) ELSE Bad
ReadJsonAt(t, i0) ==
  LET i == SkipWs(t, i0)
      b == Oct(t, i)
  IN  CASE b = 34 -> LET s == ReadChars(t, i + 1, <<>>) IN IF s.ok THEN Got(VStr(s.x), s.i) ELSE Bad
        [] b = 91 -> IF Oct(t, SkipWs(t, i + 1)) = 93 THEN Got(VArr(<<>>), SkipWs(t, i + 1) + 1)
                     ELSE LET r == ReadItems(t, i + 1, <<>>) IN IF r.ok THEN Got(VArr(r.x), r.i) ELSE Bad
        [] b = 123 -> IF Oct(t, SkipWs(t, i + 1)) = 125 THEN Got(NoProps, SkipWs(t, i + 1) + 1) ELSE ReadProps(t, i + 1, NoProps)
        [] b \in (48..57) \cup {45} -> Got(VNum(SubSeq(t, i, NumEnd(t, i) - 1)), NumEnd(t, i))
        [] Starts(t, i, Lit_null) -> Got(VNull, i + 4)
        [] Starts(t, i, Lit_true) -> Got(VTrue, i + 4)
        [] Starts(t, i, Lit_false) -> Got(VFalse, i + 5)
        [] OTHER -> Bad
ReadJson(t) == LET r == ReadJsonAt(t, 1) IN IF r.ok /\ SkipWs(t, r.i) = Len(t) + 1 THEN r ELSE Bad
RECURSIVE OutsideStrings(_, _, _)
\* the octets that are not part of a string
OutsideStrings(t, i, inside) ==
  IF i > Len(t) THEN <<>>
  ELSE IF inside THEN (IF t[i] = 92 THEN OutsideStrings(t, i + 2, TRUE) ELSE OutsideStrings(t, i + 1, t[i] # 34))
  ELSE <<t[i]>> \o OutsideStrings(t, i + 1, t[i] = 34)

\* ------------------------------------------------------------ writing YAML
YamlPrintable(c) == \/ c \in {9, 10, 13, 133} \/ c \in 32..126 \/ c \in 160..55295 \/ (c \in 57344..65533 /\ c # 65279) \/ c \in 65536..1114111
YamlChar(c) ==
  CASE c = 0 -> <<92, 48>> [] c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>>
    [] c = 11 -> <<92, 118>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>> [] c = 27 -> <<92, 101>>
    [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 133 -> <<92, 78>> [] c = 160 -> <<92, 95>>
    [] c = 8232 -> <<92, 76>> [] c = 8233 -> <<92, 80>>
    [] YamlPrintable(c) -> Encode(c)
    [] c < 256 -> <<92, 120>> \o HexDigits(c, 2, HexUp)
    [] c < 65536 -> <<92, 117>> \o HexDigits(c, 4, HexUp)
    [] OTHER -> <<92, 85>> \o HexDigits(c, 8, HexUp)
YamlString(s) == LET cs == Points(s) IN <<Quote>> \o Concat([i \in 1..Len(cs) |-> YamlChar(cs[i])]) \o <<Quote>>
Letter(b) == b \in 65..90 \/ b \in 97..122
\* words that a reader takes for something else than themselves (YAML 1.1 and 1.2)
YamlWords == {<<110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<121, 101, 115>>, <<110, 111>>, <<111, 110>>, <<111, 102, 102>>, <<121>>, <<110>>}
PlainKey(s) == s # <<>> /\ (\A i \in 1..Len(s) : Letter(s[i])) /\ LowerAll(s) \notin YamlWords
YamlKey(s) == IF PlainKey(s) THEN s ELSE YamlString(s)
Lines(ss) == Concat([i \in 1..Len(ss) |-> IF i < Len(ss) THEN Append(ss[i], 10) ELSE ss[i]])
RECURSIVE YamlText(_, _)
YamlText(x, d) ==
  LET sp == IF d > 0 THEN <<32>> ELSE <<>>
      nl == IF d > 0 THEN <<10>> ELSE <<>>
  IN  CASE x.k = "null" -> sp \o Lit_null
        [] x.k = "true" -> sp \o Lit_true
        [] x.k = "false" -> sp \o Lit_false
        [] x.k = "number" -> sp \o x.v
        [] x.k = "string" -> sp \o YamlString(x.v)
        [] x.k = "array" -> IF x.c = <<>> THEN sp \o <<91, 93>>
                            ELSE nl \o Lines([i \in 1..Len(x.c) |-> Blanks(d) \o <<45>> \o YamlText(x.c[i], d + 1)])
        [] x.k = "object" -> IF x.c = <<>> THEN sp \o <<123, 125>>
                             ELSE nl \o Lines([i \in 1..Len(x.c) |-> Blanks(d) \o YamlKey(x.ks[i]) \o <<58>> \o YamlText(x.c[i], d + 1)])
WriteYaml(x) == YamlText(x, 0)

\* --------------------- reading YAML (block collections, double-quoted and plain scalars)
YamlEscape == [b \in {48, 97, 98, 116, 110, 118, 102, 114, 101, 34, 92, 47, 78, 95, 76, 80} |->
                 CASE b = 48 -> 0 [] b = 97 -> 7 [] b = 98 -> 8 [] b = 116 -> 9 [] b = 110 -> 10 [] b = 118 -> 11 [] b = 102 -> 12
                   [] b = 114 -> 13 [] b = 101 -> 27 [] b = 78 -> 133 [] b = 95 -> 160 [] b = 76 -> 8232 [] b = 80 -> 8233 [] OTHER -> b]
RECURSIVE SplitLines(_, _, _), ReadQuoted(_, _, _), Depth(_, _), ReadBlock(_, _, _), ReadSeq(_, _, _, _), ReadMap(_, _, _, _)
SplitLines(t, i, cur) == IF i > Len(t) THEN <<cur>> ELSE IF t[i] = 10 THEN <<cur>> \o SplitLines(t, i + 1, <<>>) ELSE SplitLines(t, i + 1, Append(cur, t[i]))
ReadQuoted(t, i, acc) ==
  LET b == Oct(t, i)
      e == Oct(t, i + 1)
      n == CASE e = 120 -> 2 [] e = 117 -> 4 [] e = 85 -> 8 [] OTHER -> 0
  IN  IF i > Len(t) THEN Bad
      ELSE IF b = 34 THEN Got(acc, i + 1)
      ELSE IF b # 92 THEN ReadQuoted(t, i + 1, Append(acc, b))
      ELSE IF n > 0 THEN LET c == ReadHex(t, i + 2, n, 0) IN IF c < 0 THEN Bad ELSE ReadQuoted(t, i + 2 + n, acc \o Encode(c))
      ELSE IF e \in DOMAIN YamlEscape THEN ReadQuoted(t, i + 2, acc \o Encode(YamlEscape[e]))
      ELSE Bad
Depth(l, i) == IF Oct(l, i) = 32 THEN Depth(l, i + 1) ELSE i - 1
Plain(w) == CASE w = <<>> \/ LowerAll(w) = Lit_null -> VNull
              [] LowerAll(w) \in {Lit_true, <<121, 101, 115>>, <<111, 110>>, <<121>>} -> VTrue
              [] LowerAll(w) \in {Lit_false, <<110, 111>>, <<111, 102, 102>>, <<110>>} -> VFalse
              [] w = <<91, 93>> -> VArr(<<>>)
              [] w = <<123, 125>> -> NoProps
              [] w[1] \in (48..57) \cup {45} -> VNum(w)
              [] OTHER -> VStr(w)
Scalar1(w) == IF w # <<>> /\ w[1] = 34 THEN (LET s == ReadQuoted(w, 2, <<>>) IN IF s.ok /\ s.i = Len(w) + 1 THEN Got(VStr(s.x), 0) ELSE Bad)
              ELSE Got(Plain(w), 0)
\* the key of a line and where what follows its colon begins: [ok, x value, i]
KeyOf(w) == IF w # <<>> /\ w[1] = 34 THEN (LET s == ReadQuoted(w, 2, <<>>) IN IF s.ok /\ Oct(w, s.i) = 58 THEN Got(VStr(s.x), s.i + 1) ELSE Bad)
            ELSE LET i == FirstIdx(w, LAMBDA b : b = 58) IN IF i = 0 THEN Bad ELSE Got(Plain(SubSeq(w, 1, i - 1)), i + 1)
\* what a line holds after its marker ends at i: a scalar behind one blank, or nothing and then a deeper block from the next line
Behind(ls, n, d, w, i) == IF i > Len(w) THEN (IF n < Len(ls) /\ Depth(ls[n + 1], 1) > d THEN ReadBlock(ls, n + 1, Depth(ls[n + 1], 1)) ELSE Got(VNull, n + 1))
                          ELSE IF w[i] # 32 THEN Bad
                          ELSE LET s == Scalar1(SubSeq(w, i + 1, Len(w))) IN IF s.ok THEN Got(s.x, n + 1) ELSE Bad
Here(ls, n, d) == n <= Len(ls) /\ Depth(ls[n], 1) = d
ReadSeq(ls, n, d, acc) ==
  LET w == SubSeq(ls[n], d + 1, Len(ls[n]))
      r == IF w[1] = 45 THEN Behind(ls, n, d, w, 2) ELSE Bad
  IN  IF ~r.ok THEN Bad ELSE IF Here(ls, r.i, d) THEN ReadSeq(ls, r.i, d, Append(acc, r.x)) ELSE Got(VArr(Append(acc, r.x)), r.i)
ReadMap(ls, n, d, acc) ==
  LET w == SubSeq(ls[n], d + 1, Len(ls[n]))
      k == KeyOf(w)
      r == IF k.ok /\ k.x.k = "string" THEN Behind(ls, n, d, w, k.i) ELSE Bad
      p == VObj(Append(acc.ks, k.x.v), Append(acc.c, r.x))
  IN  IF ~r.ok THEN Bad ELSE IF Here(ls, r.i, d) THEN ReadMap(ls, r.i, d, p) ELSE Got(p, r.i)
ReadBlock(ls, n, d) ==
  LET w == SubSeq(ls[n], d + 1, Len(ls[n]))
  IN  IF w # <<>> /\ w[1] = 45 /\ Oct(w, 2) \in {0, 32} THEN ReadSeq(ls, n, d, <<>>)
      ELSE IF KeyOf(w).ok THEN ReadMap(ls, n, d, NoProps)
      ELSE LET s == Scalar1(w) IN IF s.ok THEN Got(s.x, n + 1) ELSE Bad
ReadYaml(t) == LET ls == SplitLines(t, 1, <<>>)
                   r == ReadBlock(ls, 1, Depth(ls[1], 1))
               IN  IF r.ok /\ r.i = Len(ls) + 1 THEN r ELSE Bad

\* --------------------------------------------------------- serialised trees
RECURSIVE Tree(_, _)
TreeInfo(x, maps) == LET y == SelectSeq(x, LAMBDA p : maps \/ p.k # "sourceMap")
                     IN  VObj([i \in 1..Len(y) |-> y[i].k], [i \in 1..Len(y) |-> Tree(y[i].el, maps)])
TreeContent(e, maps) ==
  CASE e.t = "null" -> VNull
    [] e.t \in {"string", "ref"} -> VStr(e.v)
    [] e.t = "number" -> VNum(e.v)
    [] e.t = "boolean" -> IF e.v = "true" THEN VTrue ELSE VFalse
    [] e.t \in Boxed -> Tree(e.c[1], maps)
    [] e.t = "member" -> Props(Prop("key", Tree(e.c[1], maps)), IF IsNil(e.c[2]) THEN NoProps ELSE Prop("value", Tree(e.c[2], maps)))
    [] OTHER -> VArr([i \in 1..Len(e.c) |-> Tree(e.c[i], maps)])
Tree(e, maps) ==
  LET m == TreeInfo(e.m, maps)
      a == TreeInfo(e.a, maps \/ e.n = "annotation")
  IN  Props(Props(Props(Prop("element", VStr(e.n)),
                        IF m.c = <<>> THEN NoProps ELSE Prop("meta", m)),
                  IF a.c = <<>> THEN NoProps ELSE Prop("attributes", a)),
            IF e.s THEN Prop("content", TreeContent(e, maps)) ELSE NoProps)

\* ------------------------------------------------------------ example bodies
(* f is the set of type attributes in force *)
Has(e, xs) == {x \in xs : HasTypeAttr(e, x)}
Literal(t, v) == CASE t = "string" -> VStr(v) [] t = "number" -> VNum(v) [] OTHER -> IF v = "true" THEN VTrue ELSE VFalse
Resolved(e) == Attr(e, "resolved")
Firm(e, f) == IF InheritsFixed(e) THEN f ELSE f \ {"fixed"}
RECURSIVE Body(_, _), BodyProp(_, _, _), BodyItem(_, _, _)
Stand(e, f, else) == IF ~IsNil(FirstSample(e)) THEN Body(FirstSample(e), f)
                     ELSE IF InfoHas(e.a, "default") THEN Body(Attr(e, "default"), f)
                     ELSE IF "nullable" \in f THEN VNull ELSE else
Body(e, f) ==
  LET g == f \cup Has(e, {"fixed", "nullable"})
      inh == g \ {"nullable"}
  IN  CASE e.t \in {"string", "number", "boolean"} -> IF e.s THEN Literal(e.t, e.v) ELSE Stand(e, g, Literal(e.t, DefVal(e.t)))
        [] e.t = "object" -> IF e.s THEN FoldLeft(LAMBDA acc, x : BodyProp(acc, x, Firm(x, inh)), NoProps, e.c) ELSE Stand(e, g, NoProps)
        [] e.t = "array"  -> IF e.s THEN FoldLeft(LAMBDA acc, x : BodyItem(acc, x, Firm(x, inh)), VArr(<<>>), e.c) ELSE Stand(e, g, VArr(<<>>))
        [] e.t = "enum"   -> IF e.s THEN Body(e.c[1], inh)
                             ELSE Stand(e, g, LET l == Attr(e, "enumerations") IN IF IsNil(l) \/ l.c = <<>> THEN VNull ELSE Body(l.c[1], g))
        [] e.t = "holder" -> IF e.s /\ ~IsNil(e.c[1]) THEN Body(e.c[1], f) ELSE VNull
        [] e.t = "extend" -> Body(Merge(e.c).el, f)
        [] e.t = "ref"    -> Body(Resolved(e), f)
        [] OTHER -> VNull
BodyProp(o, e, f) ==
  CASE e.t = "member" ->
         LET k == RenderKey(e.c[1])
         IN  IF (HasTypeAttr(e, "optional") /\ ~DefinesValue(e.c[2])) \/ k = "" THEN o
             ELSE PutProp(o, k, Body(e.c[2], f \cup Has(e, {"fixed", "nullable"})))
    [] e.t = "object" -> LET x == Body(e, f) IN IF x.k = "object" THEN PutAllProps(o, x) ELSE o
    [] e.t = "select" -> LET i == FirstIdx(e.c, LAMBDA x : x.c # <<>>)
                         IN  IF i = 0 THEN o ELSE FoldLeft(LAMBDA acc, x : BodyProp(acc, x, f), o, e.c[i].c)
    [] e.t = "ref"    -> BodyProp(o, Resolved(e), f)
    [] e.t = "extend" -> BodyProp(o, Merge(e.c).el, f)
    [] e.t = "holder" -> IF e.s /\ ~IsNil(e.c[1]) THEN BodyProp(o, e.c[1], f) ELSE o
    [] OTHER -> o
BodyItem(a, e, f) ==
  LET add(x) == [a EXCEPT !.c = Append(@, x)]
      g == f \cup Has(e, {"fixed", "nullable"})
  IN  CASE e.t \in {"string", "number", "boolean"} -> IF "fixed" \in g \/ DefinesValue(e) THEN add(Body(e, Firm(e, g \ {"nullable"}))) ELSE a
        [] e.t \in {"array", "enum", "extend", "null", "object", "holder"} -> add(Body(e, Firm(e, f \ {"nullable"})))
        [] e.t = "ref" -> IF Resolved(e).t # "array" THEN a
                          ELSE LET x == Body(Resolved(e), f) IN IF x.k = "array" THEN [a EXCEPT !.c = @ \o x.c] ELSE a
        [] OTHER -> a
GenBody(e) == Body(e, {})

\* ------------------------------------------------------------------- schemas
All4 == {"fixed", "fixedType", "nullable", "required"}
Schema7 == "http://json-schema.org/draft-07/schema#"
TypeIs(t) == Prop("type", VStr(t))
NullOr(f, s) == IF "nullable" \in f THEN Prop("anyOf", VArr(<<TypeIs("null"), s>>)) ELSE s
OneOfThese(a) == IF Len(a) = 1 THEN Prop("const", a[1]) ELSE Prop("enum", VArr(a))
Lits(x) == {x[i] : i \in 1..Len(x)}
Meta2 == {"^", "$", "*", "+", "?", ".", "(", ")", "|", "{", "}", "[", "]", "\\"}
RECURSIVE EscapePattern(_)
EscapePattern(t) == IF t = "" THEN "" ELSE LET c == CharAt(t, 1) IN (IF c \in Meta2 THEN "\\" \o c ELSE c) \o EscapePattern(SubSeq(t, 2, Len(t)))
KeyPattern(k, f) == IF "fixed" \in f \/ HasTypeAttr(k, "fixed") THEN (IF k.s THEN EscapePattern(k.v) ELSE "^(?![\\s\\S])") ELSE "(?:)"

NoSchema == [props |-> NoProps, pats |-> NoProps, req |-> <<>>, all |-> <<>>]
Unless(x, p) == IF x THEN NoProps ELSE p
Materialize(s) == Props(Props(Unless(s.props.c = <<>>, Prop("properties", s.props)), Unless(s.pats.c = <<>>, Prop("patternProperties", s.pats))),
                        Props(Unless(s.all = <<>>, Prop("allOf", VArr(s.all))), Unless(s.req = <<>>, Prop("required", VArr([i \in 1..Len(s.req) |-> VStr(s.req[i])])))))
RECURSIVE Sch(_, _), SchProp(_, _, _), SchEnum(_, _, _, _)
\* enumerations: [one: values, any: schemas]
SchEnum(acc, es, i, g) ==
  IF i > Len(es) THEN acc
  ELSE LET x == es[i]
           s == Sch(x, g \ {"fixedType", "nullable", "required"})
           put(fld, v) == [acc EXCEPT ![fld] = PutItem(VArr(@), v).c]
           putall(fld, vs) == [acc EXCEPT ![fld] = FoldLeft(PutItem, VArr(@), vs).c]
       IN  SchEnum(IF Size(x, FALSE) = Card(1) THEN put("one", GenBody(x))
                   ELSE IF s.ks = <<"enum">> THEN putall("one", s.c[1].c)
                   ELSE IF s.ks = <<"anyOf">> THEN putall("any", s.c[1].c)
                   ELSE put("any", s), es, i + 1, g)
Sch(e, f) ==
  LET g == f \cup Has(e, All4)
      inh == g \ {"fixedType", "nullable", "required"}
      shut == "fixed" \in g \/ "fixedType" \in g
  IN  CASE e.t = "null" -> TypeIs("null")
        [] e.t \in {"string", "number", "boolean"} ->
             IF "fixed" \in g /\ e.s THEN OneOfThese((IF "nullable" \in g THEN <<VNull>> ELSE <<>>) \o <<Literal(e.t, e.v)>>)
             ELSE NullOr(g, TypeIs(e.t))
        [] e.t = "object" ->
             LET s == FoldLeft(LAMBDA acc, x : SchProp(acc, x, Firm(x, inh) \cup (IF shut THEN {"required"} ELSE {})), NoSchema, e.c)
             IN  NullOr(g, Props(Props(TypeIs("object"), Materialize(s)), IF shut THEN Prop("additionalProperties", VFalse) ELSE NoProps))
        [] e.t = "array" ->
             LET item(x) == Sch(x, Firm(x, inh))
             IN  NullOr(g, Props(TypeIs("array"),
                   IF "fixedType" \in g THEN
                     (IF ~e.s \/ e.c = <<>> THEN (IF e.s THEN Prop("items", Prop("anyOf", VArr(<<>>))) ELSE Prop("maxItems", VNum("0")))
                      ELSE IF Len(e.c) = 1 THEN Prop("items", item(e.c[1]))
                      ELSE Prop("items", Prop("anyOf", FoldLeft(LAMBDA a, x : PutItem(a, item(x)), VArr(<<>>), e.c))))
                   ELSE IF "fixed" \in g THEN
                     Props(Prop("minItems", VNum(ToString(Len(e.c)))),
                           Props(Prop("items", VArr([i \in 1..Len(e.c) |-> item(e.c[i])])), Prop("additionalItems", VFalse)))
                   ELSE NoProps))
        [] e.t = "enum" ->
             LET acc == SchEnum([one |-> IF "nullable" \in g THEN <<VNull>> ELSE <<>>, any |-> <<>>], Attr(e, "enumerations").c, 1, g)
             IN  IF acc.any = <<>> THEN OneOfThese(acc.one)
                 ELSE Prop("anyOf", VArr(IF acc.one = <<>> THEN acc.any ELSE PutItem(VArr(acc.any), OneOfThese(acc.one)).c))
        [] e.t = "holder" -> IF e.s /\ ~IsNil(e.c[1]) THEN Sch(e.c[1], f) ELSE NoProps
        [] e.t = "extend" -> Sch(Merge(e.c).el, f)
        [] e.t = "ref" -> Sch(Resolved(e), f)
        [] OTHER -> Prop("oneOf", VArr(<<NoProps, NoProps>>))          \* nothing satisfies it
PlainKeyOf(k) == IF k.t = "string" /\ k.s THEN k.v ELSE ""
SchProp(s, e, f) ==
  CASE e.t = "member" ->
         LET k == e.c[1]
             kk == IF k.t = "extend" THEN Merge(k.c).el ELSE k
             g == ((f \ {"fixedType", "nullable"}) \cup Has(e, All4)) \ (IF HasTypeAttr(e, "optional") THEN {"required"} ELSE {})
             x == Sch(e.c[2], g)
             n == PlainKeyOf(k)
         IN  IF IsVariable(e) THEN [s EXCEPT !.pats = PutProp(@, KeyPattern(kk, g), x)]
             ELSE [s EXCEPT !.props = PutProp(@, n, x),
                            !.req = IF "required" \in g THEN (IF n \in Lits(@) THEN @ ELSE Append(@, n)) ELSE SelectSeq(@, LAMBDA y : y # n)]
    [] e.t = "object" -> FoldLeft(LAMBDA acc, x : SchProp(acc, x, (f \cup Has(e, {"fixed"})) \ {"fixedType", "nullable", "required"}), s, e.c)
    [] e.t = "select" -> LET os == SelectSeq(e.c, LAMBDA x : x.c # <<>>)
                         IN  [s EXCEPT !.all = Append(@, Prop("oneOf", VArr([i \in 1..Len(os) |->
                                Materialize(FoldLeft(LAMBDA acc, x : SchProp(acc, x, f), NoSchema, os[i].c))])))]
    [] e.t = "ref"    -> SchProp(s, Resolved(e), f)
    [] e.t = "extend" -> SchProp(s, Merge(e.c).el, f)
    [] e.t = "holder" -> IF e.s /\ ~IsNil(e.c[1]) THEN SchProp(s, e.c[1], f) ELSE s
    [] OTHER -> s
GenSchema(e) == Props(Prop("$schema", VStr(Schema7)), Sch(e, {}))

\* ---------------------------------------- what a schema admits (draft-07, as far as used)
RECURSIVE Admits(_, _), HasPart(_, _)
HasPart(t, w) == w = "" \/ \E i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w
Matches(p, t) == IF p = "(?:)" THEN TRUE ELSE IF p = "^(?![\\s\\S])" THEN t = "" ELSE HasPart(t, p)       \* no pattern characters in the keys used
JsonType(x) == IF x.k \in {"true", "false"} THEN "boolean" ELSE x.k
NumOf == [x \in {ToString(i) : i \in 0..9} |-> CHOOSE i \in 0..9 : ToString(i) = x]
Admits(s, x) ==
  IF s.k = "false" THEN FALSE ELSE IF s.k = "true" THEN TRUE ELSE
  \A n \in 1..Len(s.ks) :
    LET a == s.c[n]
        props == IF HasKey(s, "properties") THEN GetKey(s, "properties") ELSE NoProps
        pats  == IF HasKey(s, "patternProperties") THEN GetKey(s, "patternProperties") ELSE NoProps
    IN  CASE s.ks[n] = "type" -> JsonType(x) = a.v
          [] s.ks[n] = "const" -> EqV(a, x)
          [] s.ks[n] = "enum" -> \E i \in 1..Len(a.c) : EqV(a.c[i], x)
          [] s.ks[n] = "anyOf" -> \E i \in 1..Len(a.c) : Admits(a.c[i], x)
          [] s.ks[n] = "allOf" -> \A i \in 1..Len(a.c) : Admits(a.c[i], x)
          [] s.ks[n] = "oneOf" -> Cardinality({i \in 1..Len(a.c) : Admits(a.c[i], x)}) = 1
          [] s.ks[n] = "required" -> x.k = "object" => \A i \in 1..Len(a.c) : HasKey(x, a.c[i].v)
          [] s.ks[n] = "properties" -> x.k = "object" => \A i \in 1..Len(a.ks) : HasKey(x, a.ks[i]) => Admits(a.c[i], GetKey(x, a.ks[i]))
          [] s.ks[n] = "patternProperties" -> x.k = "object" => \A i \in 1..Len(a.ks), j \in 1..Len(x.ks) : Matches(a.ks[i], x.ks[j]) => Admits(a.c[i], x.c[j])
          [] s.ks[n] = "additionalProperties" -> x.k = "object" => \A j \in 1..Len(x.ks) :
                 HasKey(props, x.ks[j]) \/ (\E i \in 1..Len(pats.ks) : Matches(pats.ks[i], x.ks[j])) \/ Admits(a, x.c[j])
          [] s.ks[n] = "items" -> x.k = "array" => IF a.k = "array" THEN \A i \in 1..Min2(Len(a.c), Len(x.c)) : Admits(a.c[i], x.c[i])
                                                   ELSE \A i \in 1..Len(x.c) : Admits(a, x.c[i])
          [] s.ks[n] = "additionalItems" -> x.k = "array" => Len(x.c) <= Len(GetKey(s, "items").c)
          [] s.ks[n] = "minItems" -> x.k = "array" => Len(x.c) >= NumOf[a.v]
          [] s.ks[n] = "maxItems" -> x.k = "array" => Len(x.c) <= NumOf[a.v]
          [] OTHER -> TRUE

\* ---------------------------------------------------------- the state machine
InitVals == <<VNull, VNull, VNull>>
RECURSIVE ValAt(_, _), ValPut(_, _, _)
ValAt(x, p) == IF p = <<>> THEN x ELSE ValAt(x.c[p[1]], Tail(p))
ValPut(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT !.c[p[1]] = ValPut(x.c[p[1]], Tail(p), y)]
Ret(vs, res) == [vals |-> vs, res |-> res]
Apply(o, vs) ==
  LET dst == ValAt(vs[o.d], o.p)
      src == ValAt(vs[o.s], o.q)
      put(y) == [vs EXCEPT ![o.d] = ValPut(vs[o.d], o.p, y)]
      gen(x) == Ret(vs, [v |-> x, again |-> TRUE, el |-> o.el])
  IN  CASE o.op = "reset"   -> Ret(InitVals, [leak |-> 0])
        [] o.op = "vlit"    -> Ret([vs EXCEPT ![o.d] = o.el], <<>>)
        [] o.op = "vcopy"   -> Ret([vs EXCEPT ![o.d] = src], <<>>)
        [] o.op = "vassign" -> Ret(put(src), <<>>)
        [] o.op = "vmove"   -> Ret([[vs EXCEPT ![o.d] = vs[o.s]] EXCEPT ![o.s] = VNull], <<>>)
        [] o.op = "vput"    -> Ret(put(PutProp(dst, o.k, o.el)), <<>>)
        [] o.op = "vitem"   -> Ret(put(PutItem(dst, o.el)), <<>>)
        [] o.op = "vfind"   -> LET n == KeyIdx(dst, o.k)
                               IN  Ret(IF n # 0 /\ o.set THEN put([dst EXCEPT !.c[n] = o.el]) ELSE vs, [n |-> n, none |-> n = 0])
        [] o.op = "veq"     -> LET b == EqV(dst, src) IN Ret(vs, [b |-> b, sym |-> b])
        [] o.op = "json"    -> Ret(vs, [x |-> WriteJson(o.el, o.packed)])
        [] o.op = "yaml"    -> Ret(vs, [x |-> WriteYaml(o.el)])
        [] o.op = "body"    -> gen(GenBody(o.el))
        [] o.op = "schema"  -> gen(GenSchema(o.el))
        [] o.op = "tree"    -> gen(Tree(o.el, o.b))
=============================================================================

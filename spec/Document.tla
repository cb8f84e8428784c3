-------------------------------- MODULE Document --------------------------------
(* API Blueprint: documents.                                                  *)
(*                                                                            *)
(* A document is a sequence of blocks                                         *)
(*   header     [k "h", lv, s]             paragraph  [k "p", ls]             *)
(*   code       [k "c", ls, f fenced]      list item  [k "i", s, ls, b, g]    *)
(* where s is what a header or an item says, ls are lines of text (the lines  *)
(* that follow it, for an item), b the blocks inside an item, g whether they  *)
(* follow without an empty line.  DocText is the text of a document, and      *)
(* PlaceBlocks where its blocks stand.  What a document means is in Blue, and *)
(* in Mson for the data structures.                                           *)
EXTENDS Values

(* -------------------------------------------------------------- strings *)
JoinWith(ss, sep) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i], "", [i \in 1..Len(ss) |-> i])
IsBlank(c) == c = " " \/ c = "\n" \/ c = "\t"
RECURSIVE TrimL(_), TrimR(_), LowerFrom(_, _)
TrimL(t) == IF t # "" /\ IsBlank(CharAt(t, 1)) THEN TrimL(SubSeq(t, 2, Len(t))) ELSE t
TrimR(t) == IF t # "" /\ IsBlank(CharAt(t, Len(t))) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == TrimL(TrimR(t))
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {CharAt(Uppers, i) : i \in 1..26} |-> CharAt(Lowers, CHOOSE i \in 1..26 : CharAt(Uppers, i) = c)]
LowerFrom(t, i) == IF i > Len(t) THEN "" ELSE LET c == CharAt(t, i) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o LowerFrom(t, i + 1)
LowerStr(t) == LowerFrom(t, 1)
\* the first place of c in t at or behind i, or 0
RECURSIVE PlaceOf(_, _, _)
PlaceOf(t, c, i) == IF i > Len(t) THEN 0 ELSE IF CharAt(t, i) = c THEN i ELSE PlaceOf(t, c, i + 1)
From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i)
\* the octets of a text
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharOf == [n \in {10} \cup 32..126 |-> IF n = 10 THEN "\n" ELSE CharAt(Ascii, n - 31)]
CodeOf == [c \in {CharOf[n] : n \in DOMAIN CharOf} |-> CHOOSE n \in DOMAIN CharOf : CharOf[n] = c]
OctetsOf(t) == [i \in 1..Len(t) |-> CodeOf[CharAt(t, i)]]
EndsIn(t, w) == Len(t) >= Len(w) /\ From(t, Len(t) - Len(w) + 1) = w
RECURSIVE LinesOf(_)
LinesOf(t) == LET e == PlaceOf(t, "\n", 1) IN IF e = 0 THEN <<t>> ELSE <<Upto(t, e - 1)>> \o LinesOf(From(t, e + 1))
TwoBreaks(t) == IF EndsIn(t, "\n\n") THEN t ELSE IF EndsIn(t, "\n") THEN t \o "\n" ELSE t \o "\n\n"
FilledLines(ls) == SelectSeq([i \in 1..Len(ls) |-> Trim(ls[i])], LAMBDA l : l # "")

(* ---------------------------------------------------------- how it reads *)
ExprText(e) == "{" \o e.op \o JoinWith(e.vs, ",") \o "}"
UriText(u) == Join([i \in 1..Len(u) |-> IF u[i].k = "l" THEN u[i].x ELSE ExprText(u[i])])
\* types and values of MSON: a type is [ty, nest, at], a value [x, v variable]
TypeText(td) == LET ps == (IF td.ty = "" THEN <<>> ELSE <<td.ty \o (IF td.nest = <<>> THEN "" ELSE "[" \o JoinWith(td.nest, ", ") \o "]")>>) \o td.at
                IN  IF ps = <<>> THEN "" ELSE " (" \o JoinWith(ps, ", ") \o ")"
ValuesText(lead, vs) == IF vs = <<>> THEN "" ELSE lead \o JoinWith([i \in 1..Len(vs) |-> IF vs[i].v THEN "*" \o vs[i].x \o "*" ELSE vs[i].x], ", ")
HeadText(s) ==
  CASE s.k = "text"  -> s.x
    [] s.k = "group" -> "Group " \o s.x
    [] s.k = "ds"    -> "Data Structures"
    [] s.k = "uri"   -> UriText(s.u)
    [] s.k = "muri"  -> s.m \o " " \o UriText(s.u)
    [] s.k = "named" -> s.x \o " [" \o UriText(s.u) \o "]"
    [] s.k = "nmuri" -> s.x \o " [" \o s.m \o " " \o UriText(s.u) \o "]"
    [] s.k = "m"     -> s.m
    [] s.k = "nm"    -> s.x \o " [" \o s.m \o "]"
    [] s.k = "type"  -> s.x \o TypeText(s.td)
    [] s.k = "tsec"  -> s.c \o ValuesText(": ", s.vs)
    [] s.k = "typo"  -> s.x \o " [" \o s.m \o " " \o s.r \o "]"
Media(t) == IF t = "" THEN "" ELSE " (" \o t \o ")"
Spaced(t) == IF t = "" THEN "" ELSE " " \o t
AttrText(at) == IF at = <<>> THEN "" ELSE " (" \o JoinWith(at, ", ") \o ")"
ItemText(s) ==
  CASE s.k = "request"  -> "Request" \o Spaced(s.n) \o Media(s.t) \o Spaced(s.j)
    [] s.k = "response" -> "Response" \o Spaced(s.n) \o Media(s.t) \o Spaced(s.j)
    [] s.k = "model"    -> (IF s.n = "" THEN "" ELSE s.n \o " ") \o "Model" \o Media(s.t)
    [] s.k = "headers"  -> "Headers"
    [] s.k = "body"     -> "Body"
    [] s.k = "schema"   -> "Schema"
    [] s.k = "params"   -> "Parameters"
    [] s.k = "relation" -> "Relation: " \o s.x
    [] s.k = "values"   -> "Values"
    [] s.k = "default"  -> "Default: " \o s.x
    [] s.k = "sample"   -> "Sample: " \o s.x
    [] s.k = "members"  -> "Members"
    [] s.k = "val"      -> "`" \o s.x \o "`"
    [] s.k = "text"     -> s.x
    [] s.k = "attributes" -> "Attributes" \o TypeText(s.td)
    [] s.k = "mem"      -> TrimL((IF s.nm = "" THEN ValuesText("", s.vs)
                                  ELSE (IF s.nv THEN "*" \o s.nm \o TypeText(s.kt) \o "*" ELSE s.nm) \o ValuesText(": ", s.vs))
                                 \o TypeText(s.td) \o (IF s.d = "" THEN "" ELSE " - " \o s.d))
    [] s.k = "sec"      -> s.c \o ValuesText(": ", s.vs)
    [] s.k = "mix"      -> "Include" \o Spaced(s.x) \o TypeText(s.td)
    [] s.k = "one"      -> "One Of"
    [] s.k = "param"    -> s.n \o (IF s.x = "" THEN "" ELSE IF s.old THEN " = `" \o s.x \o "`" ELSE ": " \o s.x) \o AttrText(s.at)
                           \o (IF s.d = "" THEN "" ELSE IF s.old THEN " ... " \o s.d ELSE " - " \o s.d)

Indent(ls) == [i \in 1..Len(ls) |-> IF ls[i] = "" THEN "" ELSE "    " \o ls[i]]
RECURSIVE BlockLines(_), BlocksLines(_, _)
BlockLines(b) ==
  CASE b.k = "h" -> <<SubSeq("######", 1, b.lv) \o " " \o HeadText(b.s)>>
    [] b.k = "p" -> b.ls
    [] b.k = "c" -> IF b.f THEN <<"```">> \o b.ls \o <<"```">> ELSE Indent(b.ls)
    [] b.k = "i" -> <<"+ " \o ItemText(b.s)>> \o Indent(b.ls) \o (IF b.b = <<>> THEN <<>> ELSE (IF b.g THEN <<>> ELSE <<"">>) \o Indent(BlocksLines(b.b, b.g)))
BlocksLines(bs, tight) ==
  FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 \/ tight THEN <<>> ELSE <<"">>) \o BlockLines(bs[i]), <<>>, [i \in 1..Len(bs) |-> i])
DocText(d) == IF d = <<>> THEN "" ELSE JoinWith(BlocksLines(d, FALSE), "\n") \o "\n"

(* every block with the line it begins at (n), its text (raw, and src as it stands in the document) and the lines of the text *)
RECURSIVE PlaceBlock(_, _), PlaceBlocks(_, _, _)
PlaceBlock(b, n) ==
  LET ls == BlockLines(b)
      at == [n |-> n, raw |-> Trim(JoinWith(ls, "\n")), m |-> FilledLines(ls)]
  IN  IF b.k = "i" THEN b @@ at @@ [sm |-> FilledLines(<<ItemText(b.s)>> \o b.ls), kids |-> PlaceBlocks(b.b, n + 1 + Len(b.ls) + (IF b.g THEN 0 ELSE 1), b.g)]
      ELSE b @@ at
PlaceBlocks(bs, n, tight) ==
  FoldLeft(LAMBDA acc, i : [bs |-> Append(acc.bs, LET b == PlaceBlock(bs[i], acc.n)
                                                     open == b.k \in {"p", "i"} /\ i < Len(bs) /\ bs[i + 1].k \in {"p", "c"}
                                                 IN  b @@ [src |-> b.raw \o (IF open THEN "\n\n" ELSE "\n")]), n |-> acc.n + Len(BlockLines(bs[i])) + (IF tight THEN 0 ELSE 1)],
           [bs |-> <<>>, n |-> n], [i \in 1..Len(bs) |-> i]).bs

(* ------------------------------------------------------------- keywords *)
PayloadPart == {"headers", "body", "schema", "attributes", "params"}
RECURSIVE ParamShape(_)
Full(b) == \E i \in 1..Len(b.kids) : b.kids[i].k = "i" /\ b.kids[i].s.k \in PayloadPart
Kw(b) ==
  CASE b.k = "h" -> (CASE b.s.k \in {"group", "ds"} -> b.s.k
                       [] b.s.k \in {"uri", "muri", "named", "nmuri"} -> "resource"
                       [] b.s.k \in {"m", "nm"} -> "action"
                       [] OTHER -> "")
    [] b.k = "i" -> (CASE b.s.k \in {"request", "response", "model"} -> IF Full(b) THEN b.s.k ELSE b.s.k \o "Body"
                       [] b.s.k \in {"text", "param", "val", "mem", "sec", "mix", "one"} -> ""
                       [] OTHER -> b.s.k)
    [] OTHER -> ""
Dependent(b) == b.k = "h" /\ b.s.k \in {"m", "nm", "nmuri"}
WholeHeader(b) == b.k = "h" /\ b.s.k = "muri"
Plain2(b) == b.k \in {"p", "c"}
\* which sections each section has inside
InBlueprint(b) == IF b.k = "h" /\ Kw(b) \in {"resource", "group", "ds"} THEN Kw(b) ELSE ""
InGroup(b) == IF Kw(b) = "resource" THEN "resource" ELSE ""
InResource(b) == IF Dependent(b) THEN "action"
                 ELSE IF Kw(b) \in {"params", "headers", "model", "modelBody", "attributes"} THEN Kw(b) ELSE ""
InAction(b) == IF Kw(b) \in {"relation", "params", "headers", "attributes", "request", "requestBody", "response", "responseBody", "model", "modelBody"} THEN Kw(b) ELSE ""
InPayload(b) == IF Kw(b) \in PayloadPart THEN Kw(b) ELSE ""
InMsonParam(b) == IF Kw(b) \in {"default", "sample", "members"} THEN Kw(b) ELSE ""
EnumOf(t) == IF Len(t) > 6 /\ Upto(t, 5) = "enum[" /\ EndsIn(t, "]") THEN Trim(SubSeq(t, 6, Len(t) - 1)) ELSE t
\* "new", "old" or "" for what is no parameter
ParamShape(b) ==
  IF b.k # "i" THEN ""
  ELSE LET ks == SelectSeq(b.kids, LAMBDA x : x.k = "i" /\ x.s.k \in {"default", "sample", "members", "values"})
       IN  IF ks # <<>> THEN (IF ks[1].s.k = "values" THEN "old" ELSE "new")
           ELSE IF b.s.k # "param" THEN ""
           ELSE IF b.s.x # "" THEN (IF b.s.old THEN "old" ELSE "new")
           ELSE IF \E i \in 1..Len(b.s.at) : EnumOf(b.s.at[i]) # b.s.at[i] THEN "new"
           ELSE IF \E i \in 1..Len(b.s.at) : CharAt(b.s.at[i], 1) = "`" THEN "old"
           ELSE IF b.s.d # "" /\ b.s.old THEN "old" ELSE "new"

(* ----------------------------------------------------------- the parser *)
\* a text with the lines it comes from
T(x, m) == [x |-> x, m |-> m]
NoText == T("", <<>>)
Said(t, x, m) == IF x = "" THEN t ELSE T(x, m)

NoTd == [ty |-> "", nest |-> <<>>, at |-> <<>>, base |-> "U"]
\* a named type, or the attributes of something
NoType == [name |-> "", td |-> NoTd, secs |-> <<>>, n |-> 0]
NoRef == [id |-> "", st |-> "", n |-> 0, m |-> <<>>]
NewPayload == [name |-> NoText, desc |-> NoText, params |-> <<>>, headers |-> <<>>, body |-> NoText, schema |-> NoText,
               attrs |-> NoType, ref |-> NoRef, m |-> <<>>]
NewAction == [name |-> NoText, method |-> NoText, uri |-> NoText, vars |-> {}, rel |-> NoText, desc |-> NoText,
              params |-> <<>>, headers |-> <<>>, attrs |-> NoType, exs |-> <<>>]
NewResource == [name |-> NoText, uri |-> NoText, vars |-> {}, desc |-> NoText, params |-> <<>>, headers |-> <<>>,
                attrs |-> NoType, model |-> NewPayload, acts |-> <<>>]
\* p: the models defined so far, the error and the warnings; of the data structures what each depends on, what
\* those with a known base are (P primitive, V value, O object), what the others inherit, the one being read, and those read
NewParse == [models |-> <<>>, err |-> <<>>, notes |-> <<>>, stop |-> FALSE, deps |-> <<>>, bases |-> <<>>, inh |-> <<>>, ctx |-> "", types |-> {}, fresh |-> {}]
Warn(p, code, n) == IF p.stop THEN p ELSE [p EXCEPT !.notes = Append(p.notes, [code |-> code, n |-> n])]
WarnIf(c, p, code, n) == IF c THEN Warn(p, code, n) ELSE p
Erred(p, code, n) == IF p.stop THEN p ELSE [p EXCEPT !.err = <<[code |-> code, n |-> n]>>]
Thrown(p, code, n) == [Erred(p, code, n) EXCEPT !.stop = TRUE]
eBusiness == 2  eModel == 3  eMson == 4
wName == 1  wDuplicate == 2  wFormat == 3  wRedefine == 4  wIgnore == 5  wEmpty == 6
wLogic == 8  wDeprecated == 9  wIndent == 10  wUri == 12  wHttp == 13

Out(v, i, p) == [v |-> v, i |-> i, p |-> p]
Described(t, b) == T((IF t.x = "" THEN "" ELSE TwoBreaks(t.x)) \o b.raw, t.m \o b.m)
\* the blocks from i on that are description
Describe(bs, i, t, Tells(_)) ==
  LET ends == {j \in i..Len(bs) : ~Tells(bs[j])}
      e == IF ends = {} THEN Len(bs) + 1 ELSE CHOOSE j \in ends : \A n \in ends : j <= n
  IN  [t |-> FoldLeft(LAMBDA acc, j : Described(acc, bs[i + j - 1]), t, [j \in 1..(e - i) |-> j]), i |-> e]
\* the section last left, which decides where loose text goes
LeftLast(last, ctx, bs, i) == IF i <= Len(bs) /\ (ctx # "" \/ ~Plain2(bs[i])) THEN ctx ELSE last

\* the text of the block as it stands, and as content
CodeText2(b) == IF b.k = "c" THEN JoinWith(b.ls, "\n") \o "\n" ELSE b.src
RefText(x) == LET t == Trim(x)
                  id == SubSeq(t, 2, Len(t) - 3)
              IN  IF Len(t) > 4 /\ CharAt(t, 1) = "[" /\ EndsIn(t, "][]") /\ \A i \in 1..Len(id) : ~OneOf("[]()", CharAt(id, i)) THEN Trim(id) ELSE ""
OwnText(b) == IF b.k \in {"p", "c"} THEN JoinWith(b.ls, "\n") ELSE ""
MaybeRef(b, p) == WarnIf(RefText(OwnText(b)) # "", p, wIgnore, b.n)
\* a first line of code that looks like a section indented too far
TooDeep(b) == b.k = "c" /\ b.ls # <<>> /\ LET t == Trim(b.ls[1]) IN t # "" /\ OneOf("-+*", CharAt(t, 1)) /\ LowerStr(TrimL(From(t, 2))) \in {"headers", "header", "body", "schema"}
AsCode(b, p) == LET q == MaybeRef(b, p)
                IN  IF b.k = "c" THEN WarnIf(TooDeep(b), q, wIndent, b.n) ELSE Warn(q, wIndent, b.n)
SigAsCode(b, p) == WarnIf(b.ls # <<>>, p, wIndent, b.n)
SigRest(b) == JoinWith(b.ls, "\n")
=============================================================================

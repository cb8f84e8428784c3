-------------------------------- MODULE Tools -------------------------------
(* The state machine of a client of what surrounds the element library:       *)
(* sets of byte ranges, markdown trees, options; and its questions about      *)
(* text, media types, regular expressions and reports.                        *)
(*                                                                            *)
(* State: sets (of byte ranges), nodes (markdown trees: <<>> or <<node>>,     *)
(* node = [type, text, data, map, parent, kids], parent a number of a slot    *)
(* or 0), opts (name required, skip bodies, skip schemas, source maps, JSON). *)
EXTENDS Text, Json

InitTools == [sets |-> <<<<>>, <<>>>>, nodes |-> <<<<>>, <<>>, <<>>>>, opts |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>]

Ret(st, res) == [st |-> st, res |-> res]
Only(st) == Ret(st, <<>>)

\* ---------------------------------------------------------- markdown trees
Fresh == [type |-> -1, text |-> "", data |-> 0, map |-> <<>>, parent |-> 0, kids |-> <<>>]
RECURSIVE NodeAt(_, _), NodePut(_, _, _)
NodeAt(n, p) == IF p = <<>> THEN n ELSE NodeAt(n.kids[p[1]], Tail(p))
NodePut(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT !.kids[p[1]] = NodePut(n.kids[p[1]], Tail(p), x)]
Dest(st, o) == NodeAt(st.nodes[o.d][1], o.p)
Orig(st, o) == NodeAt(st.nodes[o.s][1], o.q)
WithNode(st, d, n) == [st EXCEPT !.nodes[d] = <<n>>]
WithDest(st, o, n) == WithNode(st, o.d, NodePut(st.nodes[o.d][1], o.p, n))
MakeNode(o) == IF o.full THEN [Fresh EXCEPT !.type = o.type, !.text = o.text, !.data = o.data, !.parent = o.parent] ELSE Fresh
ApplyNode(o, st) ==
  CASE o.op = "mnew"    -> Only(WithNode(st, o.d, MakeNode(o)))
    [] o.op = "mcopy"   -> Only(WithNode(st, o.d, Orig(st, o)))
    [] o.op = "massign" -> Ret(WithDest(st, o, Orig(st, o)), [b |-> TRUE])
    [] o.op = "mtype"   -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.type = o.x]))
    [] o.op = "mtext"   -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.text = o.x]))
    [] o.op = "mdata"   -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.data = o.x]))
    [] o.op = "mmap"    -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.map = AppendRanges(@, o.rs)]))
    [] o.op = "mparent" -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.parent = o.parent]))
    [] o.op = "mpush"   -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.kids = Append(@, o.el)]))
    [] o.op = "mpushcopy" -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.kids = Append(@, Orig(st, o))]))
    [] o.op = "mera"    -> Only(WithDest(st, o, [Dest(st, o) EXCEPT !.kids = RemoveAt(@, o.i)]))
    [] o.op = "mask"    -> Ret(st, [b |-> Dest(st, o).parent # 0, x |-> Dest(st, o).parent])

\* ----------------------------------------------------------------- reports
RangeText(r, ix, lines, first) ==
  IF lines THEN LET p == Position(ix, r)
                IN  "; line " \o ToString(p[1]) \o ", column " \o ToString(p[2]) \o " - line " \o ToString(p[3]) \o ", column " \o ToString(p[4])
  ELSE (IF first THEN " :" ELSE ";") \o ToString(r[1]) \o ":" \o ToString(r[2])
RangesText(rs, ix, lines) == Join([i \in 1..Len(rs) |-> RangeText(rs[i], ix, lines, i = 1)])

\* annotations as elements; what has another shape is passed over
InfoAt(x, k) == LET S == {i \in 1..Len(x) : x[i].k = k} IN IF S = {} THEN <<>> ELSE <<x[CHOOSE i \in S : \A j \in S : i <= j].el>>
OfKind(x, t) == x # <<>> /\ x[1].t = t
IntOf == [x \in {ToString(i) : i \in 0..60} |-> CHOOSE i \in 0..60 : ToString(i) = x]
ClassText(e) == LET c == InfoAt(e.m, "classes")
                IN  IF OfKind(c, "array") /\ Len(c[1].c) = 1 /\ c[1].c[1].t = "string" THEN c[1].c[1].v \o ": " ELSE ""
CodeText(e) == LET c == InfoAt(e.a, "code") IN IF OfKind(c, "number") THEN "(" \o c[1].v \o ")  " ELSE ""
RangesOf(e) == LET s == InfoAt(e.a, "sourceMap")
               IN  IF OfKind(s, "array") /\ Len(s[1].c) = 1 /\ s[1].c[1].t = "array"
                   THEN [i \in 1..Len(s[1].c[1].c) |-> LET r == s[1].c[1].c[i].c IN <<IntOf[r[1].v], IntOf[r[2].v]>>] ELSE <<>>
AnnotationText(e, ix, lines) ==
  ClassText(e) \o CodeText(e) \o (IF e.t = "string" THEN e.v ELSE "") \o RangesText(RangesOf(e), ix, lines) \o "\n"
ReportText(o) ==
  LET ix == LineIndex(o.doc)
      as == SelectSeq(o.el.c, LAMBDA e : e.n = "annotation")
  IN  "\n" \o (IF o.error = 0 THEN "OK.\n" ELSE "") \o Join([i \in 1..Len(as) |-> AnnotationText(as[i], ix, o.lines)])

SourceText(prefix, a, ix, lines) ==
  prefix \o (IF a.code = 0 THEN "" ELSE " (" \o ToString(a.code) \o ") ") \o (IF a.message = "" THEN "" ELSE " " \o a.message)
  \o RangesText(a.location, ix, lines) \o "\n"
TypedReportText(o) ==
  LET ix == LineIndex(o.doc)
      ws == o.r.warnings
  IN  "\n" \o (IF o.r.error.code = 0 THEN "OK.\n" ELSE SourceText("error:", o.r.error, ix, o.lines))
      \o Join([i \in 1..Len(ws) |-> SourceText("warning:", ws[i], ix, o.lines)])
\* what is left of warnings of which each is given once
Once(ws) == LET F[i \in 0..Len(ws)] == IF i = 0 THEN <<>> ELSE IF \E j \in 1..i - 1 : ws[j] = ws[i] THEN F[i - 1] ELSE Append(F[i - 1], ws[i])
            IN  F[Len(ws)]
AddReports(a, b) == [error |-> b.error, warnings |-> a.warnings \o b.warnings]

\* ---------------------------------------------------------------- questions
DecodeWays(doc) == LET d == Decode(doc)
                       p == [i \in 1..Len(d) |-> d[i][1]]
                   IN  <<d, p, p, p>>
SectionText(i) == CASE i \in {12, 13} -> "model" [] i \in {7, 8} -> "request" [] i \in {9, 10} -> "response" [] i \in {14, 15} -> "message-body"
                    [] i \in {16, 17} -> "message-schema" [] i = 18 -> "headers" [] i = 25 -> "mixin" [] i = 27 -> "one of" [] OTHER -> "section"
ApplyAsk(o, st) ==
  CASE o.op = "index"    -> Ret(st, [x |-> CharIndex(o.doc)])
    [] o.op = "chars"    -> LET y == [i \in 1..Len(o.rs) |-> ToChars(o.doc, o.rs[i])] IN Ret(st, [x |-> y, y |-> y])
    [] o.op = "anychars" -> Only(st)
    [] o.op = "lines"    -> Ret(st, [x |-> LineIndex(o.doc)])
    [] o.op = "pos"      -> Ret(st, [x |-> Position(LineIndex(o.doc), <<o.loc, o.len>>)])
    [] o.op = "anypos"   -> Only(st)
    [] o.op = "decode"   -> Ret(st, [x |-> [i \in 1..Len(o.docs) |-> DecodeWays(o.docs[i])]])
    [] o.op = "encode"   -> Ret(st, [x |-> [i \in 1..Len(o.cps) |-> Encode(o.cps[i])]])
    [] o.op = "media"    -> Ret(st, [json |-> IsJson(o.mt), schema |-> IsJsonSchema(o.mt), x |-> WriteMedia(o.mt)])
    [] o.op = "report"   -> Ret(st, [x |-> ReportText(o), el |-> o.el])
    [] o.op = "treport"  -> Ret(st, [x |-> TypedReportText(o), r |-> o.r])
    [] o.op = "radd"     -> LET t == AddReports(o.r, o.s) IN Ret(st, [b |-> TRUE, r |-> t, s |-> o.s, c |-> t, d |-> t])
    [] o.op = "warn"     -> Ret(st, [x |-> Once(o.r.warnings), r |-> o.r])
    [] o.op = "noopt"    -> Ret(st, [x |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>])
    [] o.op = "section"  -> Ret(st, [x |-> SectionText(o.i)])
    [] o.op = "regex"    ->
         LET m == o.t # "" /\ o.x # "" /\ o.ast # <<>> /\ Match(o.ast[1], o.t) # <<>>
             g == IF m THEN Groups(o.ast[1], o.t, o.n) ELSE <<>>
         IN  Ret(st, [b |-> m, m |-> m, g |-> g, first |-> IF m THEN Groups(o.ast[1], o.t, 2)[2] ELSE ""])

Nodal == {"mnew", "mcopy", "massign", "mtype", "mtext", "mdata", "mmap", "mparent", "mpush", "mpushcopy", "mera", "mask"}
Apply(o, st) ==
  CASE o.op = "reset"   -> Ret(InitTools, [leak |-> 0])
    [] o.op = "rset"    -> Only([st EXCEPT !.sets[o.d] = o.rs])
    [] o.op = "rappend" -> Only([st EXCEPT !.sets[o.d] = AppendRanges(@, st.sets[o.s])])
    [] o.op = "rmap"    -> Ret(st, [x |-> MapRanges(st.sets[o.s], o.doc)])
    [] o.op = "opt"     -> Only([st EXCEPT !.opts[o.i] = o.b])
    [] o.op \in Nodal   -> ApplyNode(o, st)
    [] OTHER            -> ApplyAsk(o, st)
=============================================================================

------------------------------ MODULE Grammar -------------------------------
(* The small languages inside a blueprint: URI templates, media types and the *)
(* signatures of sections.  Text is a sequence of octets.                     *)
EXTENDS Text, Json

\* (written out, TLC does not keep what it takes out of a string)
Ascii7 == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
CodeOf == [c \in {Ascii7[i] : i \in 1..95} \cup {"\t", "\n", "\r", "\f"} |->
             CASE c = "\t" -> 9 [] c = "\n" -> 10 [] c = "\r" -> 13 [] c = "\f" -> 12 [] OTHER -> 31 + CHOOSE i \in 1..95 : Ascii7[i] = c]
Oct(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])
ch(c) == CodeOf[c]
Units8 == [sp |-> <<32>>, tab |-> <<9>>, nl |-> <<10>>, cr |-> <<13>>, ff |-> <<12>>, star |-> <<42>>, under |-> <<95>>, tick |-> <<96>>, comma |-> <<44>>,
           open |-> <<40>>, close |-> <<41>>, bopen |-> <<91>>, bclose |-> <<93>>]
S == INSTANCE Signature WITH U <- Units8

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Alpha == 65..90 \cup 97..122
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
First(A) == CHOOSE i \in A : \A j \in A : i <= j

(* ----------------------------------------------------------- URI templates *)
\* characters, as code points
Pct(p, i) == i + 2 <= Len(p) /\ p[i] = ch("%") /\ p[i + 1] \in Hex /\ p[i + 2] \in Hex
Ucs(c) == \/ c \in 160..55295 \/ c \in 57344..63743 \/ c \in 63744..64975 \/ c \in 65008..65519
          \/ c >= 65536 /\ (c % 65536) <= 65533 /\ c \notin 917504..921599
LitChar(c) == c \in {33, 35, 36, 38, 61, 95} \/ c \in 40..59 \/ c \in 63..90 \/ c \in 97..122 \/ Ucs(c)
\* where the longest text of allowed characters from i on ends
RECURSIVE LitEnd(_, _)
LitEnd(p, i) == IF i > Len(p) THEN i ELSE IF Pct(p, i) THEN LitEnd(p, i + 3) ELSE IF LitChar(p[i]) THEN LitEnd(p, i + 1) ELSE i
\* likewise of a variable with its modifier
VarChar(p, i) == IF i > Len(p) THEN 0 ELSE IF Pct(p, i) THEN 3 ELSE IF p[i] \in Alpha \cup Digit \cup {ch("_")} THEN 1 ELSE 0
RECURSIVE NameEnd(_, _)
NameEnd(p, i) == LET n == VarChar(p, i)
                 IN  IF n > 0 THEN NameEnd(p, i + n)
                     ELSE IF i > 1 /\ i <= Len(p) /\ p[i] = ch(".") /\ VarChar(p, i + 1) > 0 THEN NameEnd(p, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(p, i) == IF i <= Len(p) /\ p[i] \in Digit THEN Digits(p, i + 1) ELSE i
VarEnd(p) == LET n == NameEnd(p, 1)
             IN  IF n = 1 \/ n > Len(p) THEN n
                 ELSE IF p[n] = ch("*") THEN n + 1
                 ELSE IF p[n] = ch(":") /\ n + 1 <= Len(p) /\ p[n + 1] \in (Digit \ {48}) THEN LET e == Digits(p, n + 2) IN IF e - n <= 5 THEN e ELSE n
                 ELSE n
RECURSIVE Value(_, _)
Value(p, acc) == IF p = <<>> THEN acc ELSE Value(Tail(p), 10 * acc + p[1] - 48)
Splitted(p, c) == LET cuts == {0, Len(p) + 1} \cup {i \in 1..Len(p) : p[i] = c}
                      order == SetToSortSeq(cuts, <)
                  IN  TLCEval([k \in 1..(Len(order) - 1) |-> [x |-> SubSeq(p, order[k] + 1, order[k + 1] - 1), at |-> order[k] + 1]])
Octets8(p) == EncodeAll(p)
Invalid(p, from, part) == [k |-> "invalid", x |-> Octets8(part), at |-> Len(Octets8(SubSeq(p, 1, from - 1)))]
Variable(p, from, part) ==
  LET n == NameEnd(part, 1)
  IN  IF part = <<>> \/ VarEnd(part) <= Len(part) THEN Invalid(p, from, part)
      ELSE [k |-> "var", x |-> Octets8(SubSeq(part, 1, n - 1)), explode |-> n <= Len(part) /\ part[n] = ch("*"),
            prefix |-> IF n <= Len(part) /\ part[n] = ch(":") THEN Value(SubSeq(part, n + 1, Len(part)), 0) ELSE 0]
OpOf(c) == CASE c = ch("+") -> "reserved_chars" [] c = ch("#") -> "fragment" [] c = ch(".") -> "label" [] c = ch("/") -> "path" [] c = ch(";") -> "path_param"
             [] c = ch("?") -> "query_param" [] c = ch("&") -> "query_continue" [] c \in {ch("="), ch(","), ch("!"), ch("@"), ch("|")} -> "reserved" [] OTHER -> "noop"
RECURSIVE UriParts(_, _)
UriParts(p, i) ==
  IF i > Len(p) THEN <<>>
  ELSE IF p[i] # ch("{")
  THEN LET E == {j \in i..Len(p) : p[j] = ch("{")}
           e == IF E = {} THEN Len(p) ELSE First(E) - 1
           x == SubSeq(p, i, e)
       IN  <<IF LitEnd(x, 1) > Len(x) THEN [k |-> "text", x |-> Octets8(x)] ELSE Invalid(p, i, x)>> \o UriParts(p, e + 1)
  ELSE LET E == {j \in (i + 1)..Len(p) : p[j] = ch("}")}
           e == IF E = {} THEN Len(p) + 1 ELSE First(E)
           op == IF i + 1 < e THEN OpOf(p[i + 1]) ELSE "noop"
           b == IF op = "noop" THEN i + 1 ELSE i + 2
           vs == Splitted(SubSeq(p, b, e - 1), ch(","))
       IN  <<[k |-> "expr", op |-> op, vars |-> TLCEval([j \in 1..Len(vs) |-> Variable(p, b + vs[j].at - 1, vs[j].x)]), open |-> E = {}]>> \o UriParts(p, e + 1)

\* what is said about an invalid text: b is where the valid part of it ends
HexDigit(n) == Oct(SubSeq("0123456789ABCDEF", n + 1, n + 1))
Encoded8(c) == Cat([i \in 1..Len(Encode(c)) |-> Oct("%") \o HexDigit(Encode(c)[i] \div 16) \o HexDigit(Encode(c)[i] % 16)])
RECURSIVE DotsEnd(_, _)
DotsEnd(p, i) == IF i <= Len(p) /\ p[i] = ch(".") THEN DotsEnd(p, i + 1) ELSE i
Quoted8(p) == Oct("'") \o Octets8(p) \o Oct("'")
Complaint(p, b) ==
  IF b > Len(p) THEN <<<<>>, <<>>>>
  ELSE IF p[b] = ch("%") /\ b + 2 <= Len(p) THEN <<Oct("percent encoded character ") \o Quoted8(SubSeq(p, b, b + 2)), <<>>>>
  ELSE IF DotsEnd(p, b) > b + 1 THEN <<Oct("continuous dots ") \o Quoted8(SubSeq(p, b, DotsEnd(p, b) - 1)), <<>>>>
  ELSE <<IF p[b] = ch("{") THEN Oct("nested expression brace '{'") ELSE Oct("character ") \o Quoted8(<<p[b]>>), Encoded8(p[b])>>
ViceVar(x) == LET p == TLCEval(Points(x))
                  c == Complaint(p, VarEnd(p))
              IN  Oct("URI template variable ") \o Quoted8(p) \o Oct(" contains invalid ") \o c[1]
                  \o (IF c[2] = <<>> THEN <<>> ELSE Oct(", which should be encoded as '") \o c[2] \o Oct("'"))
                  \o Oct(". Allowed characters for expressions are A-Z a-z 0-9 _ and percent encoded characters")
ViceText(x) == LET p == TLCEval(Points(x)) IN Oct("URI template contains disallowed ") \o Complaint(p, LitEnd(p, 1))[1] \o Oct(". Disallowed characters must be percent encoded.")
OpName(op) == CASE op = "label" -> "label" [] op = "path" -> "path segment" [] op = "path_param" -> "path segment parameter" [] OTHER -> "reserved operator"
Supported(op) == op \in {"noop", "reserved_chars", "fragment", "query_param", "query_continue"}
Faults(part) ==
  CASE part.k = "text" -> <<>>
    [] part.k = "invalid" -> <<ViceText(part.x)>>
    [] OTHER -> (IF Supported(part.op) THEN <<>> ELSE <<Oct("URI template '" \o OpName(part.op) \o "' expansion is not supported")>>)
                \o Cat(TLCEval([i \in 1..Len(part.vars) |-> IF part.vars[i].k = "invalid" THEN <<ViceVar(part.vars[i].x)>> ELSE <<>>]))
                \o (IF part.open THEN <<Oct("URI Template expression is missing closing bracket '}'")>> ELSE <<>>)
\* scheme, host and path
Schemes == {Oct("http"), Oct("https"), Oct("ftp"), Oct("file")}
Starts8(x, p) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
SchemeOf(x) == LET F == {y \in Schemes : Starts8(x, y)} IN IF F = {} THEN <<>> ELSE CHOOSE y \in F : \A z \in F : Len(z) <= Len(y)
UriResult(x) ==
  LET ps == TLCEval(UriParts(TLCEval(Points(x)), 1))
      sch == SchemeOf(x)
      r == SubSeq(x, Len(sch) + 1, Len(x))
      r2 == IF Starts8(r, Oct("://")) THEN SubSeq(r, 4, Len(r)) ELSE r
      P == {i \in 1..Len(r2) : r2[i] = ch("/")}
      h == IF P = {} THEN Len(r2) ELSE First(P) - 1
  IN  [scheme |-> sch, host |-> SubSeq(r2, 1, h), path |-> SubSeq(r2, h + 1, Len(r2)), parts |-> ps,
       warnings |-> Cat(TLCEval([i \in 1..Len(ps) |-> Faults(ps[i])]))]

(* ------------------------------------------------------------ media types *)
NameChar == Alpha \cup Digit \cup {ch("!"), ch("#"), ch("$"), ch("&"), ch("^"), ch("_"), ch("-"), ch(".")}
\* where a name beginning at i ends; i if there is none
RECURSIVE Names8(_, _)
Names8(x, i) == IF i <= Len(x) /\ x[i] \in NameChar THEN Names8(x, i + 1) ELSE i
NameAt(x, i) == LET e == Names8(x, i + 1) IN IF i <= Len(x) /\ x[i] \in (Alpha \cup Digit) /\ e - i <= 127 THEN e ELSE i
\* where a token beginning at i ends
RECURSIVE TokenEnd(_, _)
TokenEnd(x, i) == IF i <= Len(x) /\ x[i] \notin Special THEN TokenEnd(x, i + 1) ELSE i
RECURSIVE Blanks(_, _)
Blanks(x, i) == IF i <= Len(x) /\ x[i] \in {32, 9} THEN Blanks(x, i + 1) ELSE i
\* where the last of the plus signs that follow names is
RECURSIVE PlusEnd(_, _, _)
PlusEnd(x, i, last) == LET e == NameAt(x, i) IN IF e > i /\ e <= Len(x) /\ x[e] = ch("+") THEN PlusEnd(x, e + 1, e) ELSE last
\* a quoted string from i on: <<value, where it ends>>; 0: it does not
RECURSIVE QuotedAt(_, _, _)
QuotedAt(x, i, acc) ==
  IF i > Len(x) THEN <<acc, 0>>
  ELSE IF x[i] = 34 THEN <<acc, i + 1>>
  ELSE IF x[i] = ch("\\") THEN IF i + 1 <= Len(x) /\ x[i + 1] \in 32..126 \cup {9} \cup 128..255 THEN QuotedAt(x, i + 2, acc \o <<x[i + 1]>>) ELSE <<acc, 0>>
  ELSE QuotedAt(x, i + 1, acc \o <<x[i]>>)
\* <<key, value, where it ends>>; 0: there is no parameter
ParamAt(x, i) ==
  LET e == NameAt(x, i)
      v == e + 1
      n == TokenEnd(x, v)
  IN  IF e = i \/ e > Len(x) \/ x[e] # ch("=") \/ v > Len(x) THEN <<<<>>, <<>>, 0>>
      ELSE IF x[v] = ch("\"") THEN LET q == QuotedAt(x, v + 1, <<>>) IN <<SubSeq(x, i, e - 1), q[1], q[2]>>
      ELSE IF n > v THEN <<SubSeq(x, i, e - 1), SubSeq(x, v, n - 1), n>> ELSE <<<<>>, <<>>, 0>>
RECURSIVE ParamsAt(_, _)
ParamsAt(x, i) ==
  LET p == ParamAt(x, i)
      b == Blanks(x, p[3])
      next == IF b <= Len(x) /\ x[b] = ch(";") THEN Blanks(x, b + 1) ELSE IF b > p[3] THEN b ELSE 0
  IN  IF p[3] = 0 THEN <<>> ELSE <<<<p[1], p[2]>>>> \o (IF next = 0 THEN <<>> ELSE ParamsAt(x, next))
NoMedia == [type |-> <<>>, subtype |-> <<>>, suffix |-> <<>>, params |-> <<>>]
MediaOf(x) ==
  LET b == Blanks(x, 1)
      e == NameAt(x, b)
      t == [NoMedia EXCEPT !.type = SubSeq(x, b, e - 1)]
      s == e + 1
      n == NameAt(x, s)
      p == PlusEnd(x, s, 0)
      f == IF p = 0 THEN 0 ELSE NameAt(x, p + 1)
      suffixed == p > 0 /\ f > p + 1
      end == IF suffixed THEN f ELSE n
      semi == Blanks(x, end)
  IN  IF e = b THEN NoMedia
      ELSE IF e > Len(x) \/ x[e] # ch("/") \/ n = s THEN t
      ELSE [t EXCEPT !.subtype = SubSeq(x, s, (IF suffixed THEN p ELSE n) - 1), !.suffix = IF suffixed THEN SubSeq(x, p + 1, f - 1) ELSE <<>>,
                     !.params = IF semi <= Len(x) /\ x[semi] = ch(";") THEN ParamsAt(x, Blanks(x, semi + 1)) ELSE <<>>]
MediaText(m) == IF m.type = <<>> \/ m.subtype = <<>> THEN <<>>
                ELSE m.type \o Oct("/") \o m.subtype \o (IF m.suffix = <<>> THEN <<>> ELSE Oct("+") \o m.suffix) \o WriteParams(m.params)
MediaResult(x) == LET m == MediaOf(x) IN [m |-> m, text |-> MediaText(m), json |-> IsJson(m), schema |-> IsJsonSchema(m)]

(* ------------------------------------------------------------- signatures *)
Traits(o) == [identifier |-> o.tr[1], values |-> o.tr[2], attributes |-> o.tr[3], content |-> o.tr[4], mark |-> o.mark, before |-> o.before]
Line(x) == LET N == {i \in 1..Len(x) : x[i] = 10} IN IF N = {} THEN Len(x) ELSE First(N) - 1
SignatureResult(o) == S!SignatureOf(SubSeq(o.x, 1, Line(o.x)), Traits(o)) @@ [rest |-> SubSeq(o.x, Line(o.x) + 2, Len(o.x))]

ApplyGrammar(o) ==
  CASE o.op = "uri"   -> UriResult(o.x)
    [] o.op = "media" -> MediaResult(o.x)
    [] o.op = "sign"  -> SignatureResult(o)
    [] o.op = "reset" -> [leak |-> 0]
=============================================================================

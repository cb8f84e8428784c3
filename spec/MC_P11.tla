------------------------------- MODULE MC_P11 -------------------------------
(* Texts: every short sequence of lines that mean something to the parser, or *)
(* nearly so, wherever they stand.                                            *)
\* CONFIG {}
EXTENDS CallsBase

VARIABLE part
vars == part

Heads == {"# A", "## B [/b/{c}]", "### GET", "# Group G", "# Data Structures", "## T (object)", "## T (Nope)", "# POST /x{?y}", "### Items", "# ", "#", "## B [/b"}
Tops == {"+ Response 200 (application/json)", "+ Request A", "+ Model", "+ Attributes (T)", "+ Attributes", "+ Parameters", "+ Headers", "+ Body", "+ [B][]", "+ a: 1 (number) - d", "+ ", "+", "text", "```", "[B][]", "> q", "---"}
Inner == {"    + Attributes (array[T])", "    + Body", "    + Headers", "    + b (T, fixed)", "    + Include T", "    + One Of", "    + Sample: 1", "    + c", "    text", "        code", "    [B][]", "        + Body", "        + d: 2"}
Gaps == {""}
Vocab == Heads \cup Tops \cup Inner \cup Gaps
Few == {"# A [/a]", "### GET", "# Data Structures", "## T (object)", "+ Response 200", "+ Attributes (T)", "    + Attributes (T)", "    + b (T)", "+ c: 1", "        code", ""}
Texts == {JoinLines(ls) : ls \in SeqsUpTo(Vocab, 2)} \cup {JoinLines(ls) : ls \in [1..3 -> Few]} \cup (IF Deep THEN {JoinLines(ls) : ls \in [1..3 -> Vocab] \cup [1..4 -> Few]} ELSE {})
         \cup {JoinLines(<<"# A [/a]", "### GET", "+ Response 200", x, y>>) : x \in Inner, y \in Inner \cup {""}}
         \cup {JoinLines(<<"# Data Structures", "## T (object)", x, y>>) : x \in Tops \cup Inner, y \in Inner}
\* a family of the vocabulary without its line ends, cut anywhere
Whole == "# A [/a/{b}{?c*}]\n\n+ Attributes (array[T, U], fixed)\n    + *x* : `1, 2`, 3 (T, required) - d\n\n# GET\n+ Response 200 (a/b;c=\"d\")\n\n        { }\n"
Cuts == {SubSeq(Whole, i, j) : i \in {1, 3, 7, 12, 23, 40, 62}, j \in {k \in 1..Len(Whole) : k % (IF Deep THEN 1 ELSE 3) = 0}} \ {""}
All == Texts \cup Cuts
Share(A) == LET s == SetToSeq(A) IN {s[i] : i \in {j \in 1..Len(s) : (j % 8) + 1 = part}}

Init == part \in Parts
Next == \E t \in Share(All) : Emit(<<Read(t, 0, 1)>>) /\ part' = part
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE ToolsBase -----------------------------
(* Frame of the exhaustive models of Tools.                                   *)
EXTENDS Tools

CONSTANT Deep

VARIABLES st, part          \* part: only spreads the work over TLC's workers
vars == <<st, part>>

Do(o) == LET r == Apply(o, st)
         IN  /\ PrintT("STEP " \o ToJson([o |-> o, st |-> st, r |-> r]))
             /\ st' = r.st
             /\ part' = part

SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Printable == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
\* characters of one to four octets
Ascii == <<97>>
Newline == <<10>>
Two == <<195, 169>>
Three == <<226, 130, 172>>
Four == <<240, 159, 152, 128>>
Docs(A, n) == {Flat(d) : d \in SeqsUpTo(A, n)}
Parts == 1..8
Mine(n) == (n % 8) + 1 = part
\* the octets of a word
Code == [c \in {CharAt(Printable, i) : i \in 1..Len(Printable)} |->
           LET i == CHOOSE i \in 1..Len(Printable) : CharAt(Printable, i) = c IN IF i <= 26 THEN 96 + i ELSE IF i <= 52 THEN 38 + i ELSE i - 5]
Octets(s) == [i \in 1..Len(s) |-> Code[CharAt(s, i)]]
=============================================================================

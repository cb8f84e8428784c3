---------------------------- MODULE GrammarBase -----------------------------
(* Frame of the exhaustive models of Grammar.                                 *)
EXTENDS Grammar, SequencesExt

CONSTANT Deep

VARIABLE part        \* only spreads the work over TLC's workers
Parts == 1..8
Mine(n) == (n % 8) + 1 = part
Judge(o, Law(_, _)) == LET r == TLCEval(ApplyGrammar(o)) IN /\ Assert(Law(o, r), <<"the law does not hold for", o, r>>)
                                                   /\ PrintT("STEP " \o ToJson([o |-> o, r |-> r]))
                                                   /\ part' = part
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
Share(A) == LET s == SetToSeq(A) IN {s[i] : i \in {j \in 1..Len(s) : Mine(j)}}
Texts(A, n) == {Cat(s) : s \in SeqsUpTo(A, n)}
TwoOctets == <<195, 169>>
=============================================================================

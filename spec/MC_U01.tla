------------------------------- MODULE MC_U01 -------------------------------
(* Decoding every short sequence of the octets at which UTF-8 changes its mind; encoding every code point. *)
\* CONFIG {}
EXTENDS ToolsBase

Edges == {0, 10, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 255}
Tails == {65, 128, 143, 144, 159, 160, 191, 192, 226, 240, 255}
Batch(p, S, n) == SetToSeq({p \o t : t \in SeqsUpTo(S, n)})
Block(n) == [i \in 1..1024 |-> n * 1024 + i - 1]
Points1(n) == SelectSeq(Block(n), LAMBDA c : Scalar(c))
\* what is encoded is decoded to itself, and nothing else is decoded to it
Law(cps) == \A i \in 1..Len(cps) : Decode(Encode(cps[i])) = <<<<cps[i], Len(Encode(cps[i]))>>>>
Progress(docs) == \A i \in 1..Len(docs) :
  LET d == Decode(docs[i])
  IN  /\ FoldLeft(LAMBDA a, x : a + x[2], 0, d) = Len(docs[i])
      /\ \A j \in 1..Len(d) : d[j][2] \in 1..4 /\ Scalar(d[j][1])
Ask(docs) == Assert(Progress(docs), "Progress") /\ Do([op |-> "decode", docs |-> docs])
Init == st = InitTools /\ part \in Parts
Next ==
  \/ part = 1 /\ Do([op |-> "decode", docs |-> <<<<>>>>])
  \/ \E a \in Edges : Mine(a) /\ \E b \in Edges : Ask(Batch(<<a, b>>, Tails, IF a >= 224 THEN 2 ELSE 1))
  \/ \E a \in {224, 237, 240, 244} : \E b \in {127, 128, 143, 144, 159, 160, 191, 192} : Mine(b) /\ Ask(Batch(<<a, b>>, IF Deep THEN Tails ELSE {128, 191, 240}, 3))
  \/ \E a \in 0..255 : Mine(a) /\ Ask([b \in 1..256 |-> <<a, b - 1>>])
  \/ Deep /\ \E a \in 192..255, b \in 0..255 : Mine(b) /\ Ask([c \in 1..256 |-> <<a, b, c - 1>>])
  \/ \E n \in 0..1087 : /\ Mine(n)
                        /\ TRUE = (Deep \/ n < 66 \/ n % 16 = 0 \/ n >= 1086)
                        /\ Assert(Law(Points1(n)), "Law")
                        /\ Points1(n) # <<>>
                        /\ Do([op |-> "encode", cps |-> Points1(n)])
Spec == Init /\ [][Next]_vars
=============================================================================

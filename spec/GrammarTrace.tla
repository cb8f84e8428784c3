---------------------------- MODULE GrammarTrace ----------------------------
(* Checks recorded executions of the real code against Grammar.               *)
EXTENDS Grammar, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
Agrees(l) ==
  LET r == ApplyGrammar(l.o)
  IN  IF r = l.res THEN TRUE
      ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson(r)) /\ FALSE
Next ==
  /\ i < Len(Log)
  /\ TRUE = Agrees(Log[i + 1])
  /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

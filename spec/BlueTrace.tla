------------------------------ MODULE BlueTrace -----------------------------
(* Checks recorded executions of the real code against Blue.                  *)
EXTENDS Blue, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
Agrees(l) ==
  LET r == ApplyBlue(l.o)
  IN  IF ~Readable(l.o) THEN PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson("another text")) /\ FALSE
      ELSE IF Agree(l.o, r, l.res) THEN TRUE
      ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson(r)) /\ FALSE
Next ==
  /\ i < Len(Log)
  /\ TRUE = Agrees(Log[i + 1])
  /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

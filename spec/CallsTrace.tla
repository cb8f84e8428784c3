----------------------------- MODULE CallsTrace -----------------------------
(* Checks recorded executions of the real code against Calls.                 *)
EXTENDS Calls, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
vars == <<i, s>>
Init == i = 0 /\ s = Start
Next ==
  /\ i < Len(Log)
  /\ LET l == Log[i + 1]
         c == TLCEval(Call(l.o, l.res, s))
     IN  /\ IF c.ok THEN TRUE ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson("no such result")) /\ FALSE
         /\ s' = c.s
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

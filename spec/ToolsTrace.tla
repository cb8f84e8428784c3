----------------------------- MODULE ToolsTrace -----------------------------
(* Checks recorded executions of the real code against Tools.                *)
EXTENDS Tools, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
Init == i = 0 /\ st = InitTools
Next ==
  /\ i < Len(Log)
  /\ LET l == Log[i + 1]
         r == Apply(l.o, st)
     IN  /\ IF r.st = l.st /\ r.res = l.res THEN TRUE
            ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson(r)) /\ FALSE
         /\ st' = r.st
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

----------------------------- MODULE ValuesTrace ----------------------------
(* Checks recorded executions of the real code against Values.               *)
EXTENDS Values, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, vals
vars == <<i, vals>>
Init == i = 0 /\ vals = InitVals
Next ==
  /\ i < Len(Log)
  /\ LET l == Log[i + 1]
         r == Apply(l.o, vals)
     IN  /\ IF r.vals = l.vals /\ r.res = l.res THEN TRUE
            ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson(r)) /\ FALSE
         /\ vals' = r.vals
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

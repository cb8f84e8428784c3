------------------------------- MODULE Trace -------------------------------
(* Checks recorded executions of the real library against Machine: every      *)
(* recorded step must be the step of the model from the state reached so far. *)
EXTENDS Machine, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, slots, reg
vars == <<i, slots, reg>>

Init == i = 0 /\ slots = InitSlots /\ reg = BaseReg

Agrees(r, l) == /\ r.slots = l.slots
                /\ RegSet(r.reg) = RegSet(l.reg)
                /\ r.res = l.res

Next ==
  /\ i < Len(Log)
  /\ LET l == Log[i + 1]
         r == Apply(l.o, slots, reg)
     IN  /\ IF Agrees(r, l) THEN TRUE
            ELSE PrintT("MISMATCH " \o ToString(i + 1)) /\ PrintT("EXPECTED " \o ToJson(r)) /\ FALSE
         /\ slots' = r.slots
         /\ reg' = r.reg
  /\ i' = i + 1

Spec == Init /\ [][Next]_vars

\* the model of the objects keeps the promises that do not depend on any code
Complete == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================

--------------------------- MODULE ArcLinTrace ----------------------------
(* Conformance: every recorded history of the real code is one of ArcLin.   *)
EXTENDS ArcLin, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = {Init0}
Next == /\ i < Len(Traces[tid].ev)
        /\ st # {}
        /\ i' = i + 1
        /\ st' = Step(st, Traces[tid].ev[i + 1])
        /\ tid' = tid
Conforms == st # {}
============================================================================

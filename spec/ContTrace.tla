------------------------------ MODULE ContTrace -----------------------------
(* Conformance: every recorded history of the real containers is one of Cont. *)
EXTENDS Cont, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = Init0(Traces[tid].cfg.z = 1)
Next == /\ i < Len(Traces[tid].ev)
        /\ st.err = ""
        /\ i' = i + 1
        /\ st' = Step(st, Traces[tid].ev[i + 1])
        /\ tid' = tid
Conforms == st.err = ""
============================================================================

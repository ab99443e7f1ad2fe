----------------------------- MODULE LayoutTrace ----------------------------
(* Conformance: what the real types report about themselves, and every recorded history of a value of one, is what
   Layout prescribes. *)
EXTENDS Layout, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = Init0(Traces[tid].cfg.t)
Next == /\ i < Len(Traces[tid].ev)
        /\ st.err = ""
        /\ i' = i + 1
        /\ st' = Step(st, Traces[tid].ev[i + 1])
        /\ tid' = tid
Conforms == st.err = ""
=============================================================================

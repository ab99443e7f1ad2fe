---------------------------- MODULE DynObjTrace -----------------------------
(* Conformance: every recorded history of trait objects is one of DynObj.       *)
EXTENDS DynObj, Json, IOUtils
CONSTANT NS
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = InitWith(NS)
Next == /\ i < Len(Traces[tid].ev)
        /\ st.err = ""
        /\ i' = i + 1
        /\ st' = Step(st, Traces[tid].ev[i + 1])
        /\ tid' = tid
Conforms == st.err = ""
=============================================================================

------------------------------ MODULE CursorTrace -----------------------------
(* Conformance: every recorded history of the real iterators is one of Cursor. *)
EXTENDS Cursor, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, st
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = Init0
Next == /\ i < Len(Traces[tid].ev)
        /\ st.err = ""
        /\ i' = i + 1
        /\ st' = Step(st, Traces[tid].ev[i + 1])
        /\ tid' = tid
Conforms == st.err = ""
=============================================================================

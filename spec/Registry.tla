------------------------------ MODULE Registry ------------------------------
(* The registry of vtables: asking for a content (a sequence of words) gives    *)
(* the address of a permanent copy of it, the same for equal contents.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [reg |-> {}, pend |-> [t \in 0..3 |-> <<>>], err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Of(reg, c) == {p[2] : p \in {q \in reg : q[1] = c}}
At(reg, a) == {p[1] : p \in {q \in reg : q[2] = a}}
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Step(st, e) ==
  CASE e.k = "ask" -> [st EXCEPT !.pend[e.t] = <<e.c>>]
    (* c is what is at the address when it is returned *)
    [] e.k = "got" ->
         LET want == st.pend[e.t][1] IN
         IF st.pend[e.t] = << >> THEN Fail(st, "answer without a question")
         ELSE IF e.c # want THEN Fail(st, "the vtable isn't the requested one")
         ELSE IF Of(st.reg, want) \notin {{}, {e.a}} THEN Fail(st, "equal vtables at different addresses")
         (* a content may be found at the beginning of a longer one *)
         ELSE IF \E c \in At(st.reg, e.a) : ~Prefix(c, want) /\ ~Prefix(want, c) THEN Fail(st, "one address for different vtables")
         ELSE [st EXCEPT !.reg = @ \cup {<<want, e.a>>}, !.pend[e.t] = << >>]
    (* a registered vtable is looked at again *)
    [] e.k = "look" -> IF e.c \in At(st.reg, e.a) THEN st ELSE Fail(st, "a registered vtable changed")
    [] e.k = "end" -> IF e.misuse # 0 THEN Fail(st, "memory misused")
                      ELSE IF e.n # Cardinality({p \in st.reg : p[1] # << >>}) THEN Fail(st, "vtables not looked at") ELSE st
    [] OTHER -> Fail(st, "unknown event")
=============================================================================

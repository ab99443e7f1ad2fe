------------------------------- MODULE Library -------------------------------
(* Looking up functions in a library: by description and by canaries. exports maps    *)
(* what the library exports to its signature.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(cfg) == [exports |-> cfg.exports, got |-> FALSE, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Right(st, e) == e.sym \in DOMAIN st.exports /\ st.exports[e.sym] = e.sig
Step(st, e) ==
  CASE e.k = "get" -> IF e.told # 1 THEN Fail(st, "the refusal doesn't tell both signatures")
                      ELSE IF (e.r = 1) = Right(st, e) THEN [st EXCEPT !.got = (e.r = 1)]
                      ELSE Fail(st, IF e.r = 1 THEN "a function of another signature is given" ELSE "a function that is exported is refused")
    [] e.k = "kinds" -> IF e.r = 5 THEN st ELSE Fail(st, "a parameter of the build has no canary")
    [] e.k = "canaried" -> (* need: whether the library was built with the right parameters (2: it's left open) *)
                      IF e.need = 2 \/ e.need = e.r THEN [st EXCEPT !.got = (e.r = 1)]
                      ELSE Fail(st, IF e.r = 1 THEN "a library built otherwise is accepted" ELSE "a library built in the same way is refused")
    [] e.k = "call" -> IF st.got /\ e.r = e.a[1] * 3 + e.a[2] THEN st ELSE Fail(st, "another function is called")
    [] OTHER -> Fail(st, "unknown event")
=============================================================================

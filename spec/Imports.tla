------------------------------- MODULE Imports -------------------------------
(* A symbol imported from elsewhere, whose description is checked before it is used.  *)
(* The value that is given is one of those that a check produced, the same for every  *)
(* call of every thread; where descriptions differ, every call is told so.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(cfg) == [match |-> cfg.match, made |-> {}, dead |-> {}, given |-> 0, over |-> FALSE, canaries |-> 0, accesses |-> 0, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Check(st, v) ==
  IF (v # 0) # (st.match = 1) THEN Fail(st, "the check itself is wrong")
  ELSE IF v # 0 /\ v \in st.made THEN Fail(st, "made twice")
  ELSE [st EXCEPT !.made = @ \cup ({v} \ {0})]
Ret(st, e) ==
  IF e.r = 0 THEN (IF st.match = 1 THEN Fail(st, "a matching import is refused")
                   ELSE IF e.rep # 1 THEN Fail(st, "the mismatch doesn't tell both descriptions") ELSE st)
  ELSE IF st.match = 0 THEN Fail(st, "a mismatching import is given")
  ELSE IF e.r \notin st.made \ st.dead THEN Fail(st, "what is given isn't an existing value")
  ELSE IF st.given \notin {0, e.r} THEN Fail(st, "two values are given")
  ELSE [st EXCEPT !.given = e.r]
Destroy(st, v) ==
  IF v \notin st.made \ st.dead THEN Fail(st, "what is destroyed isn't an existing value")
  ELSE IF v = st.given /\ ~st.over THEN Fail(st, "a value that was given is destroyed")
  ELSE [st EXCEPT !.dead = @ \cup {v}]
(* imports as declared in programs: [match, the call's arguments and result] *)
Call(st, e) == IF e.r # e.a[1] * 3 + e.a[2] + e.s THEN Fail(st, "another function is called") ELSE st
Step(st, e) ==
  CASE e.k = "inv" -> st
    [] e.k = "check" -> Check(st, e.v)
    [] e.k = "ret" -> Ret(st, e)
    [] e.k = "use" -> IF e.v = st.given /\ e.v \notin st.dead THEN st ELSE Fail(st, "what was given isn't that value any more")
    [] e.k = "destroy" -> Destroy(st, e.a[1])
    [] e.k = "over" -> [st EXCEPT !.over = TRUE]
    [] e.k = "end" -> IF st.made = st.dead /\ (st.accesses > 0 => st.canaries > 0) THEN st ELSE Fail(st, "something is left")
    [] e.k = "canary" -> [st EXCEPT !.canaries = @ + 1]
    [] e.k = "access" -> IF e.r = 1 THEN [st EXCEPT !.accesses = @ + 1] ELSE Fail(st, "another value is accessed")
    [] e.k = "import" -> IF (e.r = 1) = (e.match = 1) THEN st ELSE Fail(st, "given or refused though it mustn't be")
    [] e.k = "call" -> Call(st, e)
    [] OTHER -> Fail(st, "misuse")
=============================================================================

------------------------------ MODULE ImportsMC ------------------------------
(* How it is done: a flag (unchecked, locked, validated, invalidated) and a cell. A   *)
(* thread that finds the flag unchecked checks for itself; the first to lock the flag *)
(* puts its value in the cell and then validates; others destroy theirs and retry.     *)
(* Memory: a thread knows of what is in the cell once it put it there, or once it      *)
(* acquired the flag after it was validated.                                            *)
EXTENDS Imports
CONSTANTS Mistake, Threads, Calls
VARIABLES st, flag, cell, knows, pc, has, left, next, drop
vars == <<st, flag, cell, knows, pc, has, left, next, drop>>
Init == /\ \E m \in {0, 1} : st = Init0([match |-> m])
        /\ flag = "unchecked" /\ cell = 0 /\ knows = [t \in Threads |-> FALSE] /\ pc = [t \in Threads |-> "idle"]
        /\ has = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Calls] /\ next = 1 /\ drop = 0
Ev(k) == [k |-> k]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Race(t, s) == IF knows[t] \/ Mistake = "unsound" THEN s ELSE Fail(s, "a race on the cell")
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "load") /\ UNCHANGED <<st, flag, cell, knows, has, next, drop>>
Load(t) == /\ pc[t] = "load" /\ UNCHANGED <<st, flag, cell, has, left, next, drop>>
           /\ knows' = [knows EXCEPT ![t] = @ \/ (flag = "validated" /\ Mistake # "relaxed")]
           /\ Go(t, CASE flag = "unchecked" -> "check" [] flag = "validated" -> "give" [] flag = "invalidated" -> "refuse" [] OTHER -> "load")
Check1(t) == /\ pc[t] = "check" /\ UNCHANGED <<flag, cell, knows, left, drop>>
             /\ LET v == IF st.match = 1 THEN next ELSE 0
                IN /\ st' = Step(st, Ev("check") @@ [v |-> v]) /\ has' = [has EXCEPT ![t] = v] /\ next' = next + 1
                   /\ Go(t, IF v = 0 THEN "invalidate" ELSE IF Mistake = "nolock" THEN "write" ELSE "lock")
Lock(t) == /\ pc[t] = "lock" /\ UNCHANGED <<cell, knows, left, next, drop>>
           /\ \/ flag = "unchecked" /\ flag' = "locked" /\ Go(t, IF Mistake = "early" THEN "early" ELSE "write") /\ UNCHANGED <<st, has>>
              \/ /\ flag # "unchecked" \/ next < 5 (* it may fail for no reason *)
                 /\ flag' = flag /\ Go(t, "load") /\ has' = [has EXCEPT ![t] = 0]
                 /\ st' = IF Mistake = "keep" THEN st ELSE Step(st, Ev("destroy") @@ [a |-> <<has[t]>>])
Early(t) == /\ pc[t] = "early" /\ flag' = "validated" /\ Go(t, "write") /\ UNCHANGED <<st, cell, knows, has, left, next, drop>>
Write(t) == /\ pc[t] = "write" /\ cell' = has[t] /\ has' = [has EXCEPT ![t] = 0] /\ knows' = [u \in Threads |-> u = t] /\ Go(t, "validate") /\ UNCHANGED <<st, flag, left, next, drop>>
Validate(t) == /\ pc[t] = "validate" /\ flag' = "validated" /\ Go(t, "give") /\ UNCHANGED <<st, cell, knows, has, left, next, drop>>
Invalidate(t) == /\ pc[t] = "invalidate" /\ flag' = (IF Mistake = "flags" THEN "validated" ELSE "invalidated") /\ Go(t, "refuse") /\ UNCHANGED <<st, cell, knows, has, left, next, drop>>
Give(t) == /\ pc[t] = "give" /\ st' = Race(t, Step(st, Ev("ret") @@ [r |-> IF cell = 0 THEN -1 ELSE cell])) /\ Go(t, "idle") /\ UNCHANGED <<flag, cell, knows, has, left, next, drop>>
Refuse(t) == /\ pc[t] = "refuse" /\ st' = Step(st, Ev("ret") @@ [r |-> 0, rep |-> 1]) /\ Go(t, "idle") /\ UNCHANGED <<flag, cell, knows, has, left, next, drop>>
Over == /\ \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
        /\ drop < 3 /\ drop' = drop + 1 /\ UNCHANGED <<flag, cell, knows, pc, has, left, next>>
        /\ st' = CASE drop = 0 -> Step(st, Ev("over"))
                   [] drop = 1 -> IF flag = "validated" /\ Mistake # "leak" THEN Step(st, Ev("destroy") @@ [a |-> <<cell>>]) ELSE st
                   [] OTHER -> Step(st, Ev("end"))
Next == /\ st.err = ""
        /\ (Over \/ \E t \in Threads : Begin(t) \/ Load(t) \/ Check1(t) \/ Lock(t) \/ Early(t) \/ Write(t) \/ Validate(t) \/ Invalidate(t) \/ Give(t) \/ Refuse(t))
Conforms == st.err = ""
(* nobody waits for ever: some thread can always go on other than by looking again *)
Progress == drop = 3 \/ \E t \in Threads : ~(pc[t] = "load" /\ flag = "locked") /\ (pc[t] # "idle" \/ left[t] > 0 \/ \A u \in Threads : pc[u] = "idle" /\ left[u] = 0)
=============================================================================

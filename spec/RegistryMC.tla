----------------------------- MODULE RegistryMC -----------------------------
(* The algorithm behind the registry: threads look their content up in the      *)
(* current table; if it is missing they make a permanent copy and exchange the  *)
(* table for one with the copy, starting over when the table changed meanwhile; *)
(* copies that didn't make it are freed. Every answer is fed to Registry.       *)
EXTENDS Registry
CONSTANTS NT, Contents, MaxAsk,
          Recheck,   \* look the content up again after a failed exchange
          Forget     \* keep the copy exactly if it was registered ("own"), "never" or "always"
VARIABLES table, th, freed, next, st, asked
vars == <<table, th, freed, next, st, asked>>
T == 1..NT
Idle == [pc |-> "idle", want |-> 0, copy |-> 0, seen |-> {}, ret |-> 0]
Init == table = {} /\ th = [t \in T |-> Idle] /\ freed = {} /\ next = 1 /\ st = Init0 /\ asked = 0
Ask == \E t \in T, c \in Contents :
          /\ th[t].pc = "idle" /\ asked < MaxAsk
          /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "load", !.want = c]] /\ asked' = asked + 1
          /\ st' = Step(st, [k |-> "ask", t |-> t, c |-> <<c>>]) /\ UNCHANGED <<table, freed, next>>
Load == \E t \in T :
          /\ th[t].pc = "load" /\ th' = [th EXCEPT ![t].pc = "find", ![t].seen = table] /\ UNCHANGED <<table, freed, next, st, asked>>
Find == \E t \in T :
          /\ th[t].pc = "find"
          /\ LET f == Of(th[t].seen, th[t].want) IN
             IF f # {} /\ (Recheck \/ th[t].copy = 0)
             THEN th' = [th EXCEPT ![t].pc = "done", ![t].ret = CHOOSE a \in f : TRUE] /\ UNCHANGED next
             ELSE IF th[t].copy # 0 THEN th' = [th EXCEPT ![t].pc = "cas"] /\ UNCHANGED next
             ELSE th' = [th EXCEPT ![t].pc = "cas", ![t].copy = next] /\ next' = next + 1
          /\ UNCHANGED <<table, freed, st, asked>>
Cas == \E t \in T :
          /\ th[t].pc = "cas"
          /\ IF table = th[t].seen
             THEN /\ table' = table \cup {<<th[t].want, th[t].copy>>}
                  /\ th' = [th EXCEPT ![t].pc = "done", ![t].ret = th[t].copy]
             ELSE /\ th' = [th EXCEPT ![t].pc = "load"] /\ UNCHANGED table
          /\ UNCHANGED <<freed, next, st, asked>>
Return == \E t \in T :
          /\ th[t].pc = "done"
          /\ LET x == th[t]
                 keep == CASE Forget = "own" -> x.copy = x.ret [] Forget = "never" -> FALSE [] OTHER -> TRUE
             IN /\ freed' = IF x.copy # 0 /\ ~keep THEN freed \cup {x.copy} ELSE freed
                /\ st' = Step(st, [k |-> "got", t |-> t, a |-> x.ret, c |-> <<x.want>>])
                /\ th' = [th EXCEPT ![t] = Idle]
          /\ UNCHANGED <<table, next, asked>>
Next == Ask \/ Load \/ Find \/ Cas \/ Return
Answered == st.err = ""
Permanent == \A p \in table : p[2] \notin freed
NoLeak == (\A t \in T : th[t].pc = "idle") => \A a \in 1..next - 1 : a \in freed \/ \E p \in table : p[2] = a
=============================================================================

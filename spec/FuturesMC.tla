------------------------------ MODULE FuturesMC ------------------------------
(* How it is done: an object across the boundary polls what it points to and turns  *)
(* the stable option back into a poll; a maybe resolved future is a tag and a        *)
(* payload, matched on mutably: the payload is moved out into a guard and written    *)
(* back, with the tag of the arm, when the arm is done.                              *)
EXTENDS Futures
CONSTANTS Mistake, Objs, MaxOps
VARIABLES st, mem, script, n, nextT
vars == <<st, mem, script, n, nextT>>
(* mem: object -> [kind, tag, pay]: pay is a future's id, or a value; script: future -> *)
(* polls left before it is ready, and its value *)
Nothing == <<0, 0>>
Init == st = Init0 /\ mem = << >> /\ script = << >> /\ n = 0 /\ nextT = 1
Ev(k, o) == [k |-> k, o |-> o, bad |-> 0]
Make(o, kind, wait) ==
  /\ o \notin DOMAIN mem /\ nextT' = nextT + 2
  /\ LET fut == nextT
         val == <<5, nextT + 1>>
         form == CASE kind = "box" -> "wrap" [] kind = "ref" -> "lent" [] kind = "resolved" -> "res" [] kind = "async" -> "async" [] OTHER -> "pend"
     IN /\ mem' = Put(mem, o, [kind |-> kind, tag |-> form, pay |-> IF kind = "resolved" THEN val ELSE <<fut, 0>>])
        /\ script' = Put(script, fut, [left |-> wait, val |-> val, done |-> FALSE])
        /\ st' = Step(st, Ev("make", o) @@ [form |-> form, own |-> IF kind = "resolved" THEN 0 ELSE fut, val |-> IF kind = "resolved" THEN val ELSE Nothing, d |-> << >>])
(* one poll of an underlying future: its outcome and its script afterwards *)
Under(f) == IF script[f].done THEN <<None, script[f]>>
            ELSE IF script[f].left > 0 THEN <<None, [script[f] EXCEPT !.left = @ - 1]>>
            ELSE <<Some(script[f].val), [script[f] EXCEPT !.done = TRUE]>>
PollOf(o) ==
  /\ o \in DOMAIN mem /\ UNCHANGED nextT
  /\ LET m == mem[o] IN
     CASE m.tag \in {"wrap", "lent"} ->
            LET u == Under(m.pay[1]) IN
            /\ script' = [script EXCEPT ![m.pay[1]] = u[2]] /\ UNCHANGED mem
            /\ st' = Step(st, Ev("poll", o) @@ [u |-> IF Mistake = "twice" /\ u[1] = None THEN <<u[1], u[1]>> ELSE <<u[1]>>, r |-> u[1], d |-> << >>])
       [] m.tag = "res" ->
            /\ mem' = [mem EXCEPT ![o] = IF Mistake = "guard" THEN m                     \* the guard writes it back
                                         ELSE [m EXCEPT !.tag = "empty", !.pay = Nothing]]
            /\ UNCHANGED script
            /\ st' = Step(st, Ev("poll", o) @@ [u |-> << >>, r |-> Some(m.pay), d |-> << >>])
       [] m.tag = "empty" -> UNCHANGED <<mem, script>> /\ st' = Step(st, Ev("poll", o) @@ [u |-> << >>, r |-> None, d |-> << >>])
       [] m.tag \in {"pend", "async"} ->
            LET u == Under(m.pay[1]) IN
            /\ script' = [script EXCEPT ![m.pay[1]] = u[2]]
            /\ IF u[1] = None THEN UNCHANGED mem /\ st' = Step(st, Ev("poll", o) @@ [u |-> <<u[1]>>, r |-> u[1], d |-> << >>])
               ELSE /\ mem' = [mem EXCEPT ![o] = IF Mistake = "guard" THEN m ELSE [m EXCEPT !.tag = "empty", !.pay = Nothing]]
                    /\ st' = Step(st, Ev("poll", o) @@ [u |-> <<u[1]>>, r |-> u[1], d |-> IF Mistake = "forget" THEN << >> ELSE <<m.pay[1]>>])
Drop(o) == /\ o \in DOMAIN mem /\ mem' = Del(mem, o) /\ UNCHANGED <<script, nextT>>
           /\ LET m == mem[o]
                  d == CASE m.tag \in {"wrap", "pend", "async"} -> <<m.pay[1]>> [] m.tag = "res" -> <<m.pay[2]>> [] OTHER -> << >>
              IN st' = Step(st, Ev("drop", o) @@ [d |-> d])
Use == /\ st.held # {} /\ UNCHANGED <<mem, script, nextT>>
       /\ \E t \in st.held : st' = Step(st, [k |-> "use", t |-> t, d |-> <<t>>, bad |-> 0])
Next == /\ st.err = "" /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E o \in Objs : PollOf(o) \/ Drop(o) \/ \E k \in {"box", "ref", "resolved", "pending", "async"}, w \in 0..2 : Make(o, k, w)
           \/ Use
Conforms == st.err = ""
(* a value is with its holder or to come, never both *)
Once == \A t \in st.held : \A o \in DOMAIN mem : ~(mem[o].tag = "res" /\ mem[o].pay[2] = t)
=============================================================================

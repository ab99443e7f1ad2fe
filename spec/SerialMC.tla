------------------------------- MODULE SerialMC --------------------------------
(* How it is done: a list is read element by element into a vector, for which room is   *)
(* made according to a hint of the source that needn't be true, and which is destroyed   *)
(* when the source fails; a text is copied from whatever kind of string the source has.  *)
(* The source hands out its strings as borrowed, transient or owned ones.                 *)
EXTENDS Serial
CONSTANTS Mistake, MaxLen, Room
VARIABLES ty, in, mode, hint, vec, room, live, pc, st
vars == <<ty, in, mode, hint, vec, room, live, pc, st>>
Elems == {[t |-> "str", c |-> <<97>>], [t |-> "int", x |-> 3], [t |-> "fail"]}
Ins == UNION {[1..n -> Elems] : n \in 0..MaxLen}
Init == /\ ty \in {[t |-> "list", x |-> [t |-> "text"]], [t |-> "list", x |-> [t |-> "tok"]], [t |-> "list", x |-> [t |-> "ref"]]}
        /\ in \in {[t |-> "seq", l |-> l] : l \in Ins} /\ mode \in {"borrowed", "transient", "owned"}
        /\ hint \in {-1, 0, 1, MaxLen, Room + 7} /\ vec = << >> /\ room = 0 /\ live = 0 /\ pc = "start" /\ st = Init0
Alloc == /\ pc = "start" /\ pc' = (IF (Mistake = "trust" /\ hint > Room) THEN "panic" ELSE "loop")
         /\ room' = IF hint < 0 THEN 0 ELSE IF hint > Room THEN Room ELSE hint
         /\ UNCHANGED <<ty, in, mode, hint, vec, live, st>>
Elem(x) == IF ty.x.t = "text" THEN (IF x.t # "str" \/ (Mistake = "borrow" /\ mode # "borrowed") THEN Bad ELSE [t |-> "text", c |-> x.c]) ELSE Read(ty.x, x, mode)
Read1 == /\ pc = "loop" /\ Len(vec) < Len(in.l) /\ UNCHANGED <<ty, in, mode, hint, st>>
         /\ LET v == Elem(in.l[Len(vec) + 1]) IN
            IF v = Bad THEN pc' = "failed" /\ live' = (IF Mistake = "leak" THEN live ELSE 0) /\ UNCHANGED <<vec, room>>
            ELSE /\ vec' = Append(vec, v) /\ live' = live + Toks(v) /\ pc' = "loop"
                 /\ room' = IF Len(vec) < room THEN room ELSE 2 * room + 1
Done(r) == st' = Step(st, [k |-> "read", bad |-> 0, ty |-> ty, in |-> in, mode |-> mode, r |-> r, live |-> live]) /\ pc' = "over" /\ UNCHANGED <<ty, in, mode, hint, vec, room, live>>
Give == pc = "loop" /\ Len(vec) = (IF Mistake = "short" /\ hint >= 0 /\ hint < Len(in.l) THEN hint ELSE Len(in.l)) /\ Done([t |-> "list", l |-> vec])
GiveUp == pc = "failed" /\ Done(Bad)
Next == Alloc \/ Read1 \/ Give \/ GiveUp
Conforms == st.err = "" /\ pc # "panic"
Fits == Len(vec) <= room /\ room <= 2 * (Room + MaxLen)
(* what is written is read again, from a source that lends *)
RoundTrip == pc = "over" /\ Read(ty, in, mode) # Bad => LET v == Read(ty, in, mode) IN Tree(v) = in /\ Read(ty, Tree(v), "borrowed") = v
================================================================================

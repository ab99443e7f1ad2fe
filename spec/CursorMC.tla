------------------------------- MODULE CursorMC --------------------------------
(* How it is done: two indexes of machine words (here up to W) bound what is left.    *)
(* Jumps saturate: adding to the first may pass the last, subtracting from the last    *)
(* may pass the first, and both are seen as nothing left. A drain that ends destroys   *)
(* what lies between its indexes, moves the tail to where its range began and sets the *)
(* length; one that is stopped first makes its range end at its index.                  *)
EXTENDS Cursor
CONSTANTS Mistake, W, MaxLen, MaxOps
VARIABLES st, a, b, v, n, nextT
vars == <<st, a, b, v, n, nextT>>
(* a, b: start and end; v: the memory (0 where an element was moved out or destroyed) *)
Init == st = Init0 /\ a = 0 /\ b = 0 /\ v = << >> /\ n = 0 /\ nextT = 1
Ev(k) == [k |-> k, bad |-> 0]
Seq0(m) == [j \in 1..m |-> j]
Make == /\ st.kind = ""
        /\ \E kind \in {"into", "drain", "dd", "mut"}, m \in 0..MaxLen : \E from \in 0..m : \E to \in from..m :
             /\ kind \in {"into", "mut"} => from = 0 /\ to = m
             /\ v' = Seq0(m) /\ a' = from /\ b' = to /\ nextT' = m + 1
             /\ st' = Step(st, Ev("make") @@ [kind |-> kind, s |-> Seq0(m), from |-> from, to |-> to])
Wrap(x) == x % (W + 1)
Add(x, y) == IF Mistake = "wrap" THEN Wrap(x + y) ELSE IF x + y > W THEN W ELSE x + y
Sub(x, y) == IF y > x THEN (IF Mistake = "wrapback" THEN Wrap(x + W + 1 - y) ELSE 0) ELSE x - y
Live == st.kind # "" /\ st.kind # "over"
Got(x) == IF x \in 1..Len(v) THEN <<v[x]>> ELSE <<0>>
Moved(x) == IF Owning(st) /\ x \in 1..Len(v) THEN [v EXCEPT ![x] = 0] ELSE v
(* a mutable iterator jumps by setting its index *)
NthMut(k) == /\ st.kind = "mut" /\ UNCHANGED <<b, v, nextT>>
             /\ LET s == Add(a, k) IN
                IF s < b THEN a' = s + 1 /\ st' = Step(st, Ev("nth") @@ [n |-> k, r |-> Got(s + 1), d |-> << >>])
                ELSE a' = s /\ st' = Step(st, Ev("nth") @@ [n |-> k, r |-> << >>, d |-> << >>])
NthBackMut(k) == /\ st.kind = "mut" /\ UNCHANGED <<a, v, nextT>>
                 /\ LET s == Sub(b, k) IN
                    IF a < s THEN b' = s - 1 /\ st' = Step(st, Ev("nthback") @@ [n |-> k, r |-> Got(s), d |-> << >>])
                    ELSE b' = s /\ st' = Step(st, Ev("nthback") @@ [n |-> k, r |-> << >>, d |-> << >>])
(* the others step one by one *)
Next1 == /\ Owning(st) /\ UNCHANGED <<b, nextT>>
         /\ IF a < b THEN a' = a + 1 /\ v' = Moved(a + 1) /\ st' = Step(st, Ev("nth") @@ [n |-> 0, r |-> Got(a + 1), d |-> << >>])
            ELSE UNCHANGED <<a, v>> /\ st' = Step(st, Ev("nth") @@ [n |-> 0, r |-> << >>, d |-> << >>])
Back1 == /\ st.kind = "dd" /\ UNCHANGED <<a, nextT>>
         /\ IF a < b THEN b' = b - 1 /\ v' = Moved(b) /\ st' = Step(st, Ev("nthback") @@ [n |-> 0, r |-> Got(b), d |-> << >>])
            ELSE UNCHANGED <<b, v>> /\ st' = Step(st, Ev("nthback") @@ [n |-> 0, r |-> << >>, d |-> << >>])
(* how many are said to be left: never negative *)
LenOf == IF b < a THEN (IF Mistake = "neglen" THEN Wrap(W + 1 + b - a) ELSE 0) ELSE b - a
LenOp == /\ Live /\ Exact(st) /\ UNCHANGED <<a, b, v, nextT>>
         /\ st' = Step(st, Ev("len") @@ [lower |-> LenOf, upper |-> <<LenOf>>, len |-> <<LenOf>>, d |-> << >>])
Set == /\ st.kind = "mut" /\ a \in 1..Len(v) /\ UNCHANGED <<a, b>> /\ nextT' = nextT + 1
       /\ v' = [v EXCEPT ![a] = nextT] /\ st' = Step(st, Ev("set") @@ [a |-> v[a], b |-> nextT, d |-> <<v[a]>>])
ToDd == /\ st.kind = "drain" /\ UNCHANGED <<b, v, nextT>> /\ a' = IF Mistake = "restart" THEN st.from ELSE a
        /\ st' = Step(st, Ev("dd") @@ [d |-> << >>])
Stop == /\ st.kind = "drain" /\ b' = (IF Mistake = "stop" THEN b ELSE a) /\ UNCHANGED <<a, v, nextT>> /\ st' = Step(st, Ev("stop") @@ [d |-> << >>])
To == IF st.kind = "dd" THEN st.to ELSE b
End == /\ Live /\ UNCHANGED <<a, b, nextT>>
       /\ LET killed == IF Owning(st) THEN SubSeq(v, a + 1, b) ELSE << >>
              after == IF st.kind = "into" THEN << >> ELSE IF ~Owning(st) THEN v
                       ELSE SubSeq(v, 1, st.from) \o SubSeq(v, (IF Mistake = "tail" THEN b ELSE To) + 1, Len(v))
          IN /\ v' = after
             /\ LET s2 == Step(st, Ev("end") @@ [d |-> killed, after |-> after]) IN st' = IF s2.err = "" THEN [s2 EXCEPT !.kind = "over"] ELSE s2
Next == /\ st.err = "" /\ n < MaxOps /\ n' = n + 1
        /\ (Make \/ Next1 \/ Back1 \/ LenOp \/ Set \/ ToDd \/ Stop \/ End \/ \E k \in 0..W : NthMut(k) \/ NthBackMut(k))
Conforms == st.err = ""
(* nothing is both handed out and in the sequence *)
Once == st.kind = "over" => st.held \cap SeqSet(v) = {}
================================================================================

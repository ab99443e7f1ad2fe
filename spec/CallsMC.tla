------------------------------- MODULE CallsMC -------------------------------
(* How it is done: an object is an address and the address of a table of functions.  *)
(* Each function receives the thing's address and the arguments in order. Calling a   *)
(* closure once moves the object's box into the call, which takes the closure out of  *)
(* it, frees it and destroys what it captured; the object itself isn't destroyed.     *)
EXTENDS Calls
CONSTANTS Mistake, Objs, MaxOps
VARIABLES st, mem, heap, outside, n, nextT
vars == <<st, mem, heap, outside, n, nextT>>
(* mem: object -> [at, table]; heap: address -> [own, n, items, count]; outside: tokens given out *)
Init == st = Init0 /\ mem = << >> /\ heap = << >> /\ outside = {} /\ n = 0 /\ nextT = 1
Ev(k, o) == [k |-> k, o |-> o, bad |-> 0]
Make(o, kind) ==
  /\ o \notin DOMAIN mem /\ o \notin DOMAIN heap /\ nextT' = nextT + 4 /\ UNCHANGED outside
  /\ LET items == IF kind = "iter" THEN <<<<7, nextT + 1>>, <<8, nextT + 2>>>> ELSE << >> IN
     /\ mem' = Put(mem, o, [at |-> o, table |-> kind])
     /\ heap' = Put(heap, o, [own |-> nextT, n |-> 0, items |-> items, count |-> 1])
     /\ st' = Step(st, Ev("make", o) @@ [kind |-> kind, own |-> nextT, lent |-> 0, items |-> items, d |-> << >>])
Clone(o, to) ==
  /\ o \in DOMAIN mem /\ mem[o].table = "fn" /\ to \notin DOMAIN mem /\ to \notin DOMAIN heap
  /\ mem' = Put(mem, to, mem[o]) /\ heap' = [heap EXCEPT ![mem[o].at].count = @ + 1] /\ UNCHANGED <<nextT, outside>>
  /\ st' = Step(st, Ev("clone", o) @@ [to |-> to, d |-> << >>])
CallOf(o) ==
  /\ o \in DOMAIN mem /\ mem[o].table \in {"fn", "mut", "once"} /\ nextT' = nextT + 3
  /\ LET a == mem[o].at
         h == heap[a]
         args == <<<<1, nextT>>, <<2, nextT + 1>>>>
         seen == IF Mistake = "swap" THEN <<args[2], args[1]>> ELSE args
         r == <<3, nextT + 2>>
         u == <<[own |-> h.own, n |-> h.n + 1, args |-> seen, r |-> r]>>
         once == mem[o].table = "once"
         d == <<nextT, nextT + 1>> \o (IF once THEN <<h.own>> ELSE << >>) \o (IF once /\ Mistake = "double" THEN <<h.own>> ELSE << >>)
     IN /\ st' = Step(st, Ev("call", o) @@ [args |-> args, u |-> u, r |-> r, d |-> d])
        /\ outside' = outside \cup {nextT + 2}
        /\ IF once THEN mem' = Del(mem, o) /\ heap' = Del(heap, a)
           ELSE UNCHANGED mem /\ heap' = [heap EXCEPT ![a].n = IF Mistake = "copy" THEN @ ELSE @ + 1]     \* called on a copy of the state
NextOf(o) ==
  /\ o \in DOMAIN mem /\ mem[o].table = "iter" /\ UNCHANGED <<mem, nextT>>
  /\ LET a == mem[o].at
         h == heap[a]
         r == IF h.n < Len(h.items) THEN h.items[h.n + 1] ELSE NoItem
     IN /\ heap' = [heap EXCEPT ![a].n = Min(@ + 1, Len(h.items))]
        /\ outside' = outside \cup (IF r = NoItem THEN {} ELSE {r[2]})
        /\ st' = Step(st, Ev("next", o) @@ [u |-> <<r>>, r |-> r, d |-> << >>])
Drop(o) ==
  /\ o \in DOMAIN mem /\ mem' = Del(mem, o) /\ UNCHANGED <<nextT, outside>>
  /\ LET a == mem[o].at
         h == heap[a]
         last == h.count = 1 \/ Mistake = "shared"
     IN /\ heap' = IF last THEN Del(heap, a) ELSE [heap EXCEPT ![a].count = @ - 1]
        /\ st' = Step(st, Ev("drop", o) @@ [d |-> IF last THEN <<h.own>> \o [j \in 1..(Len(h.items) - h.n) |-> h.items[h.n + j][2]] ELSE << >>])
Use == /\ outside # {} /\ UNCHANGED <<mem, heap, nextT>>
       /\ LET t == CHOOSE t \in outside : TRUE IN outside' = outside \ {t} /\ st' = Step(st, [k |-> "use", t |-> t, d |-> <<t>>, bad |-> 0])
Next == /\ st.err = "" /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E o \in Objs : CallOf(o) \/ NextOf(o) \/ Drop(o) \/ (\E k \in {"fn", "mut", "once", "iter"} : Make(o, k)) \/ \E to \in Objs : Clone(o, to)
           \/ Use
Conforms == st.err = ""
Same == st.held = outside /\ DOMAIN st.objs = DOMAIN mem
=============================================================================

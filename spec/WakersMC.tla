------------------------------ MODULE WakersMC ------------------------------
(* How the boundary does it: polling lends a borrowed waker (whose drop is no     *)
(* release); cloning it clones the underlying one into a new shared block with a   *)
(* count; cloning a handle increments that count; dropping the last one releases   *)
(* the underlying waker. Threads other than the polling one use handles too, each  *)
(* operation being one step on its count.                                          *)
EXTENDS Wakers
CONSTANTS Mistake, MaxSlots, MaxOps
VARIABLES st, held, blocks, hs, borrowed, wakes, n, nextB
vars == <<st, held, blocks, hs, borrowed, wakes, n, nextB>>
(* held: references to each task's waker; blocks: block -> [task, count]; hs: handle -> block *)
Init == /\ st = Init0 /\ held = [t \in Tasks |-> 0] /\ blocks = << >> /\ hs = << >> /\ borrowed = NoTask
        /\ wakes = [t \in Tasks |-> 0] /\ n = 0 /\ nextB = 1
Obs == [w |-> [j \in 1..2 |-> wakes'[j - 1]], alive |-> [j \in 1..2 |-> IF held'[j - 1] > 0 THEN 1 ELSE 0]]
(* dropping one handle of a block: [held, blocks] afterwards *)
Rel(b) == IF blocks[b].count = 1
          THEN <<[held EXCEPT ![blocks[b].task] = @ - 1], Del(blocks, b)>>
          ELSE <<held, [blocks EXCEPT ![b].count = @ - 1]>>
Orig(t) == /\ t \notin st.orig /\ held' = [held EXCEPT ![t] = @ + 1] /\ UNCHANGED <<blocks, hs, borrowed, wakes, nextB>>
           /\ st' = Step(st, [k |-> "orig", t |-> t] @@ Obs)
Unorig(t) == /\ t \in st.orig /\ borrowed # t /\ held' = [held EXCEPT ![t] = @ - 1] /\ UNCHANGED <<blocks, hs, borrowed, wakes, nextB>>
             /\ st' = Step(st, [k |-> "unorig", t |-> t] @@ Obs)
Poll(t) == /\ borrowed = NoTask /\ t \in st.orig /\ borrowed' = t /\ UNCHANGED <<held, blocks, hs, wakes, nextB>>
           /\ st' = Step(st, [k |-> "poll", t |-> t] @@ Obs)
Polled == /\ borrowed # NoTask /\ borrowed' = NoTask /\ UNCHANGED <<blocks, hs, wakes, nextB>>
          /\ held' = IF Mistake = "borrow" THEN [held EXCEPT ![borrowed] = @ - 1] ELSE held      \* drops what it only borrows
          /\ st' = Step(st, [k |-> "polled"] @@ Obs)
CloneCur(to) == /\ borrowed # NoTask /\ to \notin DOMAIN hs
                /\ blocks' = Put(blocks, nextB, [task |-> borrowed, count |-> 1]) /\ hs' = Put(hs, to, nextB) /\ nextB' = nextB + 1
                /\ held' = IF Mistake = "clone" THEN held ELSE [held EXCEPT ![borrowed] = @ + 1]
                /\ UNCHANGED <<borrowed, wakes>>
                /\ st' = Step(st, [k |-> "clone", h |-> -1, to |-> to] @@ Obs)
Clone(h, to) == /\ h \in DOMAIN hs /\ to \notin DOMAIN hs
                /\ blocks' = [blocks EXCEPT ![hs[h]].count = @ + 1] /\ hs' = Put(hs, to, hs[h])
                /\ UNCHANGED <<held, borrowed, wakes, nextB>>
                /\ st' = Step(st, [k |-> "clone", h |-> h, to |-> to] @@ Obs)
WakeRef(h) == /\ IF h = -1 THEN borrowed # NoTask ELSE h \in DOMAIN hs
              /\ wakes' = [wakes EXCEPT ![IF h = -1 THEN borrowed ELSE blocks[hs[h]].task] = @ + 1]
              /\ UNCHANGED <<held, blocks, hs, borrowed, nextB>>
              /\ st' = Step(st, [k |-> "wakeref", h |-> h] @@ Obs)
Wake(h) == /\ h \in DOMAIN hs
           /\ wakes' = [wakes EXCEPT ![blocks[hs[h]].task] = @ + 1]
           /\ IF Mistake = "wake" THEN UNCHANGED <<held, blocks>> ELSE held' = Rel(hs[h])[1] /\ blocks' = Rel(hs[h])[2]
           /\ hs' = Del(hs, h) /\ UNCHANGED <<borrowed, nextB>>
           /\ st' = Step(st, [k |-> "wake", h |-> h] @@ Obs)
Drop(h) == /\ h \in DOMAIN hs
           /\ held' = Rel(hs[h])[1] /\ blocks' = Rel(hs[h])[2]
           /\ hs' = Del(hs, h) /\ UNCHANGED <<borrowed, wakes, nextB>>
           /\ st' = Step(st, [k |-> "drop", h |-> h] @@ Obs)
(* handles are compared by their blocks; a borrowed one is like no other *)
Same(a, b) == /\ a \in DOMAIN hs /\ b \in DOMAIN hs /\ UNCHANGED <<held, blocks, hs, borrowed, wakes, nextB>>
              /\ st' = Step(st, [k |-> "same", a |-> a, b |-> b, r |-> IF hs[a] = hs[b] \/ Mistake = "same" THEN 1 ELSE 0] @@ Obs)
Slots == 1..MaxSlots
Next == /\ st.err = "" /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E t \in Tasks : Orig(t) \/ Unorig(t) \/ Poll(t)
           \/ Polled \/ WakeRef(-1)
           \/ \E h \in Slots : CloneCur(h) \/ WakeRef(h) \/ Wake(h) \/ Drop(h) \/ \E o \in Slots : Clone(h, o) \/ Same(h, o)
Conforms == st.err = ""
=============================================================================

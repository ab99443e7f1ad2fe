------------------------------ MODULE ArcImpl -------------------------------
(* The algorithm behind Arc and Weak: one shared value, its two counters,     *)
(* and the atomic steps that each operation performs on them, with their      *)
(* memory orderings (module HB keeps the happens-before relation).            *)
(* Variant = "fixed" is what the code does; "original" is what it did before  *)
(* the fix: commits (fetch_or/fetch_add/fetch_and upgrade, relaxed            *)
(* decrements), and violates the invariants.                                  *)
(* Unique = "atomic" evaluates is_unique in one step (its two loads can be    *)
(* separated in the code: recorded known finding); "loads" in two.            *)
EXTENDS HB, FiniteSets
CONSTANTS T, Budget, Variant, Unique, Ops
ASSUME T \subseteq 1..3
VARIABLES strong, top, weak, destroyed, freed, hs, hw, pc, tmp, n, h
vars == <<strong, top, weak, destroyed, freed, hs, hw, pc, tmp, n, h>>
S == 1  \* address of the strong counter
Wk == 2 \* address of the weak counter
Val == 1 \* the value, as a plain location
Blk == 100001 \* its memory
DecOrd == IF Variant = "fixed" THEN "ar" ELSE "rlx"
UnqOrd == IF Variant = "fixed" THEN "acq" ELSE "rlx"
Count(f) == LET RECURSIVE Sum(_)
                Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + Sum(X \ {x})
            IN Sum(T)
Fresh == LET z == [Init0 EXCEPT !.W = (Val :> [Zero EXCEPT ![0] = 1]) @@ (Blk :> [Zero EXCEPT ![0] = 1])] IN Fork(z)
Init == /\ hs \in [T -> 0..1] /\ hw \in [T -> 0..1]
        /\ Count(hs) >= 1
        /\ strong = Count(hs) /\ top = FALSE /\ weak = Count(hw) + 1
        /\ destroyed = 0 /\ freed = 0
        /\ pc = [t \in T |-> "idle"] /\ tmp = [t \in T |-> 0] /\ n = [t \in T |-> Budget] /\ h = Fresh
At(t, a, kind, o) == Step(h, [k |-> kind, t |-> t, a |-> a, o |-> o, b |-> 1])
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(t, op) == op \in Ops /\ pc[t] = "idle" /\ n[t] > 0 /\ n' = [n EXCEPT ![t] = @ - 1]
U(x) == UNCHANGED x

Clone(t) == Start(t, "clone") /\ hs[t] > 0 /\ strong' = strong + 1 /\ hs' = [hs EXCEPT ![t] = @ + 1]
            /\ h' = At(t, S, "rmw", "rlx") /\ U(<<top, weak, destroyed, freed, hw, pc, tmp>>)
Down(t) == Start(t, "down") /\ hs[t] > 0 /\ weak' = weak + 1 /\ hw' = [hw EXCEPT ![t] = @ + 1]
           /\ h' = At(t, Wk, "rmw", "rlx") /\ U(<<strong, top, destroyed, freed, hs, pc, tmp>>)
WClone(t) == Start(t, "wclone") /\ hw[t] > 0 /\ weak' = weak + 1 /\ hw' = [hw EXCEPT ![t] = @ + 1]
             /\ h' = At(t, Wk, "rmw", "rlx") /\ U(<<strong, top, destroyed, freed, hs, pc, tmp>>)
UseIt(t) == Start(t, "read") /\ hs[t] > 0 /\ h' = Step(h, [k |-> "rd", t |-> t, a |-> Val, o |-> "na", b |-> 0])
            /\ U(<<strong, top, weak, destroyed, freed, hs, hw, pc, tmp>>)
DropS(t) == Start(t, "drops") /\ hs[t] > 0 /\ strong' = strong - 1 /\ hs' = [hs EXCEPT ![t] = @ - 1]
            /\ Go(t, IF strong = 1 /\ ~top THEN "destroy" ELSE "idle") /\ h' = At(t, S, "rmw", DecOrd)
            /\ U(<<top, weak, destroyed, freed, hw, tmp>>)
Destroy(t) == pc[t] = "destroy" /\ destroyed' = destroyed + 1 /\ Go(t, "decw")
              /\ h' = Step(h, [k |-> "wr", t |-> t, a |-> Val, o |-> "na", b |-> 0])
              /\ U(<<strong, top, weak, freed, hs, hw, tmp, n>>)
DecW(t) == pc[t] = "decw" /\ weak' = weak - 1 /\ Go(t, IF weak = 1 THEN "free" ELSE "idle") /\ h' = At(t, Wk, "rmw", DecOrd)
           /\ U(<<strong, top, destroyed, freed, hs, hw, tmp, n>>)
DropW(t) == Start(t, "dropw") /\ hw[t] > 0 /\ hw' = [hw EXCEPT ![t] = @ - 1] /\ weak' = weak - 1
            /\ Go(t, IF weak = 1 THEN "free" ELSE "idle") /\ h' = At(t, Wk, "rmw", DecOrd)
            /\ U(<<strong, top, destroyed, freed, hs, tmp>>)
FreeIt(t) == pc[t] = "free" /\ freed' = freed + 1 /\ Go(t, "idle")
             /\ h' = Step(h, [k |-> "wr", t |-> t, a |-> Blk, o |-> "na", b |-> 0])
             /\ U(<<strong, top, weak, destroyed, hs, hw, tmp, n>>)
(* upgrade: load, then compare-exchange until it succeeds or reads 0 *)
Up1(t) == Variant = "fixed" /\ Start(t, "up") /\ hw[t] > 0 /\ tmp' = [tmp EXCEPT ![t] = strong]
          /\ Go(t, IF strong = 0 THEN "idle" ELSE "upcas") /\ h' = At(t, S, "load", "rlx")
          /\ U(<<strong, top, weak, destroyed, freed, hs, hw>>)
Up2(t) == pc[t] = "upcas" /\ U(<<top, weak, destroyed, freed, hw, n>>) /\
          IF strong = tmp[t]
          THEN strong' = strong + 1 /\ hs' = [hs EXCEPT ![t] = @ + 1] /\ Go(t, "idle") /\ h' = At(t, S, "rmw", "acq") /\ U(tmp)
          ELSE tmp' = [tmp EXCEPT ![t] = strong] /\ Go(t, IF strong = 0 THEN "idle" ELSE "upcas") /\ h' = At(t, S, "casfail", "rlx") /\ U(<<strong, hs>>)
(* the original upgrade *)
Uo1(t) == Variant = "original" /\ Start(t, "up") /\ hw[t] > 0 /\ top' = TRUE
          /\ Go(t, IF strong = 0 THEN "upreset" ELSE "upadd") /\ h' = At(t, S, "rmw", "acq")
          /\ U(<<strong, weak, destroyed, freed, hs, hw, tmp>>)
Uo2(t) == pc[t] = "upreset" /\ strong' = 0 /\ top' = FALSE /\ Go(t, "idle") /\ h' = At(t, S, "store", "rel")
          /\ U(<<weak, destroyed, freed, hs, hw, tmp, n>>)
Uo3(t) == pc[t] = "upadd" /\ strong' = strong + 1 /\ Go(t, "upclear") /\ h' = At(t, S, "rmw", "rel")
          /\ U(<<top, weak, destroyed, freed, hs, hw, tmp, n>>)
Uo4(t) == pc[t] = "upclear" /\ top' = FALSE /\ hs' = [hs EXCEPT ![t] = @ + 1] /\ Go(t, "idle") /\ h' = At(t, S, "rmw", "rel")
          /\ U(<<strong, weak, destroyed, freed, hw, tmp, n>>)
(* get_mut: uniqueness, then a write *)
Mut1(t) == Start(t, "mut") /\ hs[t] > 0 /\ U(<<strong, top, weak, destroyed, freed, hs, hw, tmp>>) /\
           IF Unique = "atomic"
           THEN Go(t, IF strong = 1 /\ weak = 1 THEN "write" ELSE "idle")
                /\ h' = Step(At(t, S, "load", UnqOrd), [k |-> "load", t |-> t, a |-> Wk, o |-> UnqOrd, b |-> 1])
           ELSE Go(t, IF strong = 1 THEN "mutw" ELSE "idle") /\ h' = At(t, S, "load", UnqOrd)
Mut2(t) == pc[t] = "mutw" /\ Go(t, IF weak = 1 THEN "write" ELSE "idle") /\ h' = At(t, Wk, "load", UnqOrd)
           /\ U(<<strong, top, weak, destroyed, freed, hs, hw, tmp, n>>)
Mut3(t) == pc[t] = "write" /\ Go(t, "idle") /\ h' = Step(h, [k |-> "wr", t |-> t, a |-> Val, o |-> "na", b |-> 0])
           /\ U(<<strong, top, weak, destroyed, freed, hs, hw, tmp, n>>)
Next == \E t \in T : Clone(t) \/ Down(t) \/ WClone(t) \/ UseIt(t) \/ DropS(t) \/ Destroy(t) \/ DecW(t) \/ DropW(t) \/ FreeIt(t)
                     \/ Up1(t) \/ Up2(t) \/ Uo1(t) \/ Uo2(t) \/ Uo3(t) \/ Uo4(t) \/ Mut1(t) \/ Mut2(t) \/ Mut3(t)
Quiet == \A t \in T : pc[t] = "idle"
(* A01 *)
OnceAndLate == /\ destroyed <= 1 /\ freed <= 1
               /\ destroyed > 0 => Count(hs) = 0
               /\ freed > 0 => destroyed = 1 /\ Count(hw) = 0
               /\ Quiet => ((Count(hs) = 0) <=> (destroyed = 1)) /\ ((Count(hs) + Count(hw) = 0) <=> (freed = 1))
(* A02 *)
Counts == Quiet => strong = Count(hs) /\ weak = Count(hw) + (IF Count(hs) > 0 THEN 1 ELSE 0)
(* A03 *)
Exclusive == \A t \in T : pc[t] = "write" => Count(hs) = 1 /\ hs[t] = 1 /\ Count(hw) = 0
(* A04 *)
Ordered == h.err = ""
============================================================================

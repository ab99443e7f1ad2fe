------------------------------- MODULE HB ----------------------------------
(* Happens-before as the C++20/Rust memory model defines it, over a          *)
(* recorded interleaving of atomic operations and plain accesses, kept as    *)
(* vector clocks. Errors:                                                     *)
(*  - a plain access that races with another one (a value destroyed or        *)
(*    written while accesses to it are not ordered before; a read that does   *)
(*    not happen after the write it depends on),                              *)
(*  - a block of memory freed while an atomic access to it is not ordered     *)
(*    before, or accessed before its initialisation is visible.               *)
EXTENDS Integers, Sequences, TLC

Threads == 0..3
Zero == [t \in Threads |-> 0]
Join(a, b) == [t \in Threads |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Leq(a, b) == \A t \in Threads : a[t] <= b[t]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
(* C: clock of each thread. L: clock released by each atomic's last release  *)
(* sequence. F: clock of each thread's last release fence. P: what its       *)
(* relaxed loads would acquire at an acquire fence. R, W: reads and writes   *)
(* of each plain location.                                                   *)
Init0 == [C |-> [t \in Threads |-> [Zero EXCEPT ![t] = 1]], L |-> <<>>,
          F |-> [t \in Threads |-> Zero], P |-> [t \in Threads |-> Zero], R |-> <<>>, W |-> <<>>, err |-> ""]
Acq(o) == o \in {"acq", "ar", "sc"}
Rel(o) == o \in {"rel", "ar", "sc"}
Tick(h, t) == [h EXCEPT !.C[t][t] = @ + 1]
Fail(h, m) == [h EXCEPT !.err = IF @ = "" THEN m ELSE @]
Read(h, t, x) ==
  LET g == IF Leq(Get(h.W, x), h.C[t]) THEN h ELSE Fail(h, "read not ordered after a write")
  IN [g EXCEPT !.R = Put(@, x, [Get(@, x) EXCEPT ![t] = h.C[t][t]])]
Write(h, t, x) ==
  LET g == IF Leq(Get(h.W, x), h.C[t]) /\ Leq(Get(h.R, x), h.C[t]) THEN h ELSE Fail(h, "write or destruction not ordered after another access")
  IN [g EXCEPT !.W = Put(@, x, [Get(@, x) EXCEPT ![t] = h.C[t][t]])]
Load(h, t, a, o) ==
  IF Acq(o) THEN [h EXCEPT !.C[t] = Join(@, Get(h.L, a)), !.P[t] = Join(@, Get(h.L, a))] ELSE [h EXCEPT !.P[t] = Join(@, Get(h.L, a))]
Released(h, t, o) == IF Rel(o) THEN h.C[t] ELSE h.F[t]
Store(h, t, a, o) == Tick([h EXCEPT !.L = Put(@, a, Released(h, t, o))], t)
Rmw(h, t, a, o) ==
  LET g == Load(h, t, a, o) IN Tick([g EXCEPT !.L = Put(@, a, Join(Get(g.L, a), Released(g, t, o)))], t)
Fence(h, t, o) ==
  LET g == IF Acq(o) THEN [h EXCEPT !.C[t] = Join(@, h.P[t])] ELSE h
  IN Tick(IF Rel(o) THEN [g EXCEPT !.F[t] = g.C[t]] ELSE g, t)
(* Threads start after what the main thread did, and it resumes after them. *)
Fork(h) == Tick([h EXCEPT !.C = [t \in Threads |-> IF t = 0 THEN @[0] ELSE Join(@[t], @[0])]], 0)
JoinAll(h) == [h EXCEPT !.C[0] = Join(Join(@, h.C[1]), Join(h.C[2], h.C[3]))]
Atomic(h, e) ==
  CASE e.k = "load" \/ e.k = "casfail" -> Load(h, e.t, e.a, e.o)
    [] e.k = "store" -> Store(h, e.t, e.a, e.o)
    [] e.k = "rmw" -> Rmw(h, e.t, e.a, e.o)
    [] e.k = "fence" -> Fence(h, e.t, e.o)
IsAtomic(e) == e.k \in {"load", "casfail", "store", "rmw", "fence"}
(* An atomic inside an allocation is also a use of that allocation. *)
Step(h, e) ==
  CASE IsAtomic(e) -> Atomic(IF e.b # 0 THEN Read(h, e.t, 100000 + e.b) ELSE h, e)
    [] e.k = "rd" -> Read(h, e.t, e.a)
    [] e.k = "wr" -> Write(h, e.t, e.a)
    [] e.k = "fork" -> Fork(h)
    [] e.k = "join" -> JoinAll(h)
    [] OTHER -> Fail(h, "invalid access")
============================================================================

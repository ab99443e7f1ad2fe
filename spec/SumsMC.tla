------------------------------- MODULE SumsMC -------------------------------
(* All programs of up to N operations: no payload is ever in two places, lost, or used after its destruction. *)
EXTENDS Sums
CONSTANT N
VARIABLES st, n
Kinds(o) == CASE o \in {"map", "and_then", "ok", "err", "unwrap_err", "unwrap_err_or_else"} -> {"R"}
              [] o \in {"unwrap", "unwrap_or_else"} -> {"R", "O"}
              [] o = "convert" -> {"R", "O", "CR", "CO"}
              [] o \in {"match", "match_ref", "mut", "clone"} -> {"R", "O", "E", "F"}
              [] o \in {"ask", "debug", "eq"} -> {"R", "O"}
              [] OTHER -> {"R", "O", "E", "F", "CR", "CO", "A", "B"}
Fs(o) == CASE o \in {"map", "mut", "unwrap_or_else", "unwrap_err_or_else"} -> {"same", "new", "panic"}
           [] o = "and_then" -> {"same", "new", "err", "panic"}
           [] o \in {"match", "clone", "match_ref"} -> {"same", "panic"}
           [] OTHER -> {"same"}
Unary == {"drop", "ask", "match_ref", "debug", "convert", "match", "map", "and_then", "ok", "err", "unwrap", "unwrap_err", "unwrap_or_else", "unwrap_err_or_else", "mut"}
Ev(o, s, t, f, k, v) == [o |-> o, s |-> s, t |-> t, f |-> f, k |-> k, v |-> v, val |-> n % 2, r |-> <<0, 0>>]
Evs == {Ev(o, s, s, f, "", 0) : o \in {q \in Unary : \E a \in Slots : st.sl[a] # None /\ st.sl[a][1] \in Kinds(q)}, s \in Slots, f \in {"same", "new", "err", "panic"}}
       \cup {Ev("new", s, s, "same", k, v) : s \in {q \in Slots : st.sl[q] = None}, k \in {"R", "O", "E", "F"}, v \in {0, 1, 4, 9}}
       \cup {Ev(o, s, t, f, "", 0) : o \in {"move", "swap", "eq", "clone"}, s \in Slots, t \in Slots, f \in {"same", "panic"}}
Legal(e) == CASE e.o = "new" -> /\ (e.k = "R" => e.v < 2) /\ (e.k = "O" => e.v \in {0, 9}) /\ (e.k = "E" => e.v # 4)
              [] OTHER -> /\ st.sl[e.s] # None /\ st.sl[e.s][1] \in Kinds(e.o) /\ e.f \in Fs(e.o)
                          /\ e.o \in {"move", "swap", "eq", "clone"} => e.s # e.t
                          /\ e.o = "clone" => st.sl[e.t] = None
                          /\ e.o = "eq" => st.sl[e.t] # None /\ st.sl[e.t][1] = st.sl[e.s][1]
Init == st = Init0 /\ n = 0
Next == \E e \in Evs :
          /\ n < N
          /\ Legal(e)
          /\ LET w == Apply(st, e) IN st' = [sl |-> w.sl, val |-> st.val \o w.nv, d |-> st.d \cup Range(w.d), err |-> ""]
          /\ n' = n + 1
Safe == OnePlace(st)
=============================================================================

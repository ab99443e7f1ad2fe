----------------------------- MODULE ArcLinMC -------------------------------
(* ArcLin driven by every program of a few operations: threads invoke         *)
(* operations on handles they hold, the operations take effect at any moment, *)
(* and destruction and deallocation happen as soon as they are allowed.       *)
EXTENDS ArcLin
CONSTANTS T, Budget, Ops, Cells
VARIABLES c, hold, n
vars == <<c, hold, n>>
(* hold[t]: handles of t: sequence of <<kind, object>>, kind in "s","w"       *)
Objs == {1, 2}
Init == /\ hold \in [T -> {<< >>, << <<"s", 1>> >>, << <<"s", 2>>, <<"w", 1>> >>, << <<"w", 1>> >>}]
        /\ n = [t \in T |-> Budget]
        /\ LET cnt(k, o) == Cardinality({<<t, i>> \in T \X (1..2) : i <= Len(hold[t]) /\ hold[t][i] = <<k, o>>})
           IN c = [Init0 EXCEPT !.obj = [o \in Objs |-> [s |-> cnt("s", o) + (IF Cells > 0 /\ o = 1 THEN 1 ELSE 0) + (IF cnt("s", o) = 0 THEN 1 ELSE 0), w |-> cnt("w", o), toks |-> {o}, val |-> o, freed |-> FALSE]],
                                !.cell = [i \in 1..Cells |-> 1]]
(* an extra handle owned by nobody keeps objects alive whose handles are all weak at first: it is dropped by the environment *)
Env == /\ \E o \in Objs : /\ c.obj[o].s > Cardinality({<<t, i>> \in T \X (1..9) : i <= Len(hold[t]) /\ hold[t][i] = <<"s", o>>})
                                         + Cardinality({i \in 1..Cells : c.cell[i] = o})
                          /\ \A t \in T : c.pend[t].op = ""
                          /\ c' = AddS(c, o, -1)
       /\ UNCHANGED <<hold, n>>
Remove(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
Invoke(t, op, a, h) == /\ op \in Ops /\ c.pend[t].op = "" /\ n[t] > 0
                       /\ c' = [c EXCEPT !.pend[t] = [NoOp EXCEPT !.op = op, !.a = a]]
                       /\ n' = [n EXCEPT ![t] = @ - 1] /\ hold' = [hold EXCEPT ![t] = h]
Call(t) == \/ \E i \in DOMAIN hold[t] :
               LET k == hold[t][i][1]
                   o == hold[t][i][2]
               IN IF k = "s"
                  THEN \/ \E op \in {"clone", "downgrade", "read", "strong_count", "weak_count", "is_unique"} : Invoke(t, op, <<o>>, hold[t])
                       \/ Invoke(t, "get_mut", <<o, 10 * t + n[t]>>, hold[t])
                       \/ \E op \in {"drops", "into_inner"} : Invoke(t, op, <<o>>, Remove(hold[t], i))
                       \/ \E x \in 1..Cells : Invoke(t, "store", <<x, o>>, Remove(hold[t], i)) \/ \E e \in {0, o} : Invoke(t, "cas", <<x, e, o>>, Remove(hold[t], i))
                       \/ \E x \in 1..Cells : Invoke(t, "is", <<x, o>>, hold[t])
                  ELSE \/ \E op \in {"wclone", "upgrade"} : Invoke(t, op, <<o>>, hold[t])
                       \/ \E op \in {"dropw", "dynupgrade"} : Invoke(t, op, <<o>>, Remove(hold[t], i))
           \/ \E x \in 1..Cells : Invoke(t, "load", <<x>>, hold[t]) \/ Invoke(t, "store", <<x, 0>>, hold[t])
Work(t) == c' \in Lin(c, t) /\ UNCHANGED <<hold, n>>
Gain(p) == CASE p.op \in {"clone", "upgrade", "dynupgrade"} /\ p.r[1] = 1 -> << <<"s", p.r[2]>> >>
             [] p.op \in {"downgrade", "wclone"} -> << <<"w", p.r[2]>> >>
             [] p.op \in {"load"} /\ p.r[1] # 0 -> << <<"s", p.r[1]>> >>
             [] p.op \in {"is", "cas", "into_inner"} /\ Len(p.r) = 2 /\ p.r[2] # 0 -> << <<"s", p.r[2]>> >>
             [] OTHER -> << >>
Return(t) == /\ c.pend[t].op # "" /\ c.pend[t].ph = 9
             /\ hold' = [hold EXCEPT ![t] = @ \o Gain(c.pend[t])]
             /\ c' = [c EXCEPT !.pend[t] = NoOp]
             /\ UNCHANGED n
Kill == \E k \in Objs : k \notin c.own /\ CanDestroy(c, 0, k) /\ c' = Destroy(c, k) /\ UNCHANGED <<hold, n>>
Release == \E o \in Objs : CanFree(c, 0, o) /\ c' = Free(c, o) /\ UNCHANGED <<hold, n>>
Next == Env \/ Kill \/ Release \/ \E t \in T : Call(t) \/ Work(t) \/ Return(t)
(* Invariants *)
Held(k, o) == Cardinality({<<t, i>> \in T \X (1..9) : i <= Len(hold[t]) /\ hold[t][i] = <<k, o>>})
AllIdle == \A t \in T : c.pend[t].op = ""
Conserved == /\ \A o \in Objs : c.obj[o].s >= 0 /\ c.obj[o].w >= 0
             /\ AllIdle => \A o \in Objs : c.obj[o].w = Held("w", o) /\ c.obj[o].s >= Held("s", o) + Cardinality({x \in 1..Cells : c.cell[x] = o})
NoDangling == \A o \in Objs : /\ (Held("s", o) > 0 \/ (\E x \in 1..Cells : c.cell[x] = o)) => c.obj[o].s > 0 /\ ~c.obj[o].freed
                              /\ c.obj[o].s > 0 => c.obj[o].toks = {o}
                              /\ Held("w", o) > 0 => ~c.obj[o].freed
NoRevival == \A o \in Objs : c.obj[o].toks = {} => c.obj[o].s = 0
NoLoss == \A o \in Objs : (AllIdle /\ Held("s", o) = 0 /\ (\A x \in 1..Cells : c.cell[x] # o) /\ c.obj[o].s > 0) => ENABLED Env
============================================================================

-------------------------------- MODULE Time --------------------------------
(* Times. A duration, an instant or a system time is a whole number of           *)
(* nanoseconds (since the epoch of its clock), however it is stored; there are   *)
(* fewer than 2^64 seconds in it. An atomic duration is one signed number of     *)
(* microseconds; each operation on it happens at one instant.                    *)
EXTENDS Big, FiniteSets, TLC
L == 16                                 \* numbers of 16 bytes
Thousand(x) == MulAdd(x, 1000, 0)
Billion(x) == Thousand(Thousand(Thousand(x)))
Wide(x) == x \o Zeros(L - Len(x))
SecondsEnd == Billion(Wide(Zeros(8) \o <<1>>))          \* 2^64 s
Second == Billion(Wide(<<1>>))
Of(secs, nanos) == Add(Billion(Wide(secs)), Wide(nanos))
Valid(t) == Less(t, SecondsEnd)
(* What is read from a time: whole seconds and the rest.                          *)
Reads(t, e) == /\ Of(e.secs, e.nanos) = t /\ Less(Wide(e.nanos), Second)
               /\ e.total = t /\ e.micros = ToInt(e.nanos) \div 1000 /\ e.millis = ToInt(e.nanos) \div 1000000
               /\ e.std = 1
(* ---- atomic durations: [neg, micros] ------------------------------------------ *)
RECURSIVE DivSmall(_, _, _, _)
(* x / m for a small m, from the most significant byte down: quotient bytes        *)
DivSmall(x, m, j, rem) == IF j = 0 THEN << >> ELSE LET v == rem * 256 + x[j] IN Append(DivSmall(x, m, j - 1, v % m), v \div m)
Div(x, m) == DivSmall(x, m, Len(x), 0)
Micros(t) == Div(t, 1000)
Cell(neg, t) == LET m == Micros(t) IN [neg |-> IF m = Zeros(L) THEN 0 ELSE neg, m |-> m]
Shown(c) == <<c.neg>> \o Thousand(c.m)
Threads == 0..3
NoOp == [op |-> "", c |-> [neg |-> 0, m |-> Zeros(L)], done |-> FALSE, r |-> << >>]
Lin(C, t) ==
  LET p == C.pend[t] IN
  IF p.op = "" \/ p.done THEN {}
  ELSE {[C EXCEPT !.cell = IF p.op = "load" THEN @ ELSE p.c, !.pend[t].done = TRUE, !.pend[t].r = IF p.op = "store" THEN << >> ELSE Shown(C.cell)]}
RECURSIVE Closure(_, _)
Closure(S, F) == LET N == UNION {Lin(c, t) : c \in F, t \in Threads} \ S IN IF N = {} THEN S ELSE Closure(S \cup N, N)

(* ---- steps -------------------------------------------------------------------- *)
(* reg: the times at hand; cells: possible states of the atomic one.               *)
Init0 == [reg |-> [x \in 0..2 |-> Zeros(L)], cells |-> {[cell |-> [neg |-> 0, m |-> Zeros(L)], pend |-> [t \in Threads |-> NoOp]]}, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Made(st, e, t) == IF ~Valid(t) THEN (IF e.p = 1 THEN st ELSE Fail(st, "a time that can't be represented"))
                  ELSE IF e.p = 0 /\ Reads(t, e) THEN [st EXCEPT !.reg[e.d] = t] ELSE Fail(st, "the time obtained")
Cells(st, S) == IF S = {} THEN Fail(st, "an atomic operation") ELSE [st EXCEPT !.cells = S]
Step(st, e) ==
  CASE e.k = "new" -> Made(st, e, Of(e.a, e.b))
    [] e.k = "millis" -> Made(st, e, Thousand(Thousand(Wide(e.a))))
    [] e.k = "micros" -> Made(st, e, Thousand(Wide(e.a)))
    (* a number of 512ths of a second, as a floating point number *)
    [] e.k = "dyadic" -> Made(st, e, MulAdd(MulAdd(MulAdd(Wide(e.a), 125, 0), 125, 0), 125, 0))
    (* converted to another type and back: nothing changes *)
    [] e.k = "conv" -> Made(st, e, st.reg[e.x])
    [] e.k = "add" -> Made(st, e, Add(st.reg[e.x], st.reg[e.y]))
    [] e.k = "cmp" -> LET c == Cmp(0, st.reg[e.x], st.reg[e.y]) IN
                      IF e.ord = c /\ e.eq = (IF c = 0 THEN 1 ELSE 0) /\ (c = 0 => e.h = 1) /\ e.lt = (IF c < 0 THEN 1 ELSE 0)
                      THEN st ELSE Fail(st, "a comparison")
    (* the clock: never behind what it showed before, never ahead of what it shows after *)
    [] e.k = "now" -> IF ~Less(e.total, e.lo) /\ ~Less(e.hi, e.total) THEN Made(st, e, e.total) ELSE Fail(st, "the time it is")
    [] e.k = "limit" -> LET t == IF e.c = "MAX" THEN Sub(Billion(Wide(Zeros(5) \o <<8, 0>>)), Thousand(Wide(<<1>>)))
                                 ELSE IF e.c = "RESOLUTION" THEN Thousand(Wide(<<1>>)) ELSE Zeros(L)
                        IN Made(st, e, t)
    (* atomic ones *)
    [] e.k = "inv" -> Cells(st, {[c EXCEPT !.pend[e.t] = [NoOp EXCEPT !.op = e.op, !.c = IF e.op = "load" THEN @ ELSE Cell(e.neg, e.a)]] :
                                   c \in {d \in st.cells : d.pend[e.t].op = ""}})
    [] e.k = "ret" -> Cells(st, {[c EXCEPT !.pend[e.t] = NoOp] : c \in {d \in Closure(st.cells, st.cells) : d.pend[e.t].done /\ d.pend[e.t].r = e.r}})
    [] OTHER -> Fail(st, "unknown event")
=============================================================================

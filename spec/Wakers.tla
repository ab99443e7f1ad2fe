------------------------------- MODULE Wakers -------------------------------
(* Wakers across a stable boundary. Tasks are woken through their original waker  *)
(* or handles cloned from what their futures are polled with; a task's waker is   *)
(* alive exactly while its original or one of those handles is.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Tasks == {0, 1}
NoTask == -1
(* orig: tasks whose original is held; cur: the task being polled; slots: handle -> *)
(* task; wakes: how often each task was woken so far.                              *)
Init0 == [orig |-> {}, cur |-> NoTask, slots |-> << >>, wakes |-> [t \in Tasks |-> 0], err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
Del(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
Task(st, h) == IF h = -1 THEN st.cur ELSE st.slots[h]
Alive(st, t) == t \in st.orig \/ t = st.cur \/ \E h \in DOMAIN st.slots : st.slots[h] = t
Woken(st, t) == [st EXCEPT !.wakes[t] = @ + 1]
Act(st, e) ==
  CASE e.k \in {"rest", "alloc", "free"} -> st
    [] e.k = "orig" -> [st EXCEPT !.orig = @ \cup {e.t}]
    [] e.k = "unorig" -> [st EXCEPT !.orig = @ \ {e.t}]
    [] e.k = "poll" -> [st EXCEPT !.cur = e.t]
    [] e.k = "polled" -> [st EXCEPT !.cur = NoTask]
    [] e.k = "clone" -> [st EXCEPT !.slots = Put(@, e.to, Task(st, e.h))]
    [] e.k = "wakeref" -> Woken(st, Task(st, e.h))
    [] e.k = "wake" -> Woken([st EXCEPT !.slots = Del(@, e.h)], Task(st, e.h))
    [] e.k = "drop" -> [st EXCEPT !.slots = Del(@, e.h)]
    (* claiming two handles wake the same task; they may fail to notice *)
    [] e.k = "same" -> IF e.r = 1 => Task(st, e.a) = Task(st, e.b) THEN st ELSE Fail(st, "two tasks taken for one")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) ==
  LET n == Act(st, e) IN
  IF n.err # "" THEN n
  ELSE IF "bad" \in DOMAIN e /\ e.bad # 0 THEN Fail(n, "memory misused")
  (* what's seen of the tasks once the threads are at rest *)
  ELSE IF "w" \in DOMAIN e /\ e.w # [j \in 1..2 |-> n.wakes[j - 1]] THEN Fail(n, "woken the wrong number of times")
  ELSE IF "alive" \in DOMAIN e /\ e.alive # [j \in 1..2 |-> IF Alive(n, j - 1) THEN 1 ELSE 0] THEN Fail(n, "released too early or too late")
  ELSE n
=============================================================================

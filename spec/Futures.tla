------------------------------- MODULE Futures -------------------------------
(* Futures seen through the stable boundary, and futures that may be resolved from *)
(* the start, and async functions' ("async": as "pend", of an owned one). A value is <<x, t>>: what it shows and the token in it (0: none). A   *)
(* poll's outcome is <<0>> (pending) or <<1, x, t>>.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* objs: object -> [form, own, val]: form "wrap" (each poll is a poll of the original), *)
(* "lent" (same, but the original outlives it), "res" (resolved from the start),     *)
(* "pend" (a future in it), "empty".  held: tokens in values given out.               *)
Init0 == [objs |-> << >>, held |-> {}, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
Del(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
None == <<0>>
Some(v) == <<1, v[1], v[2]>>
Toks(t) == IF t = 0 THEN << >> ELSE <<t>>
Given(st, r) == IF r[1] = 1 /\ r[3] # 0 THEN [st EXCEPT !.held = @ \cup {r[3]}] ELSE st
Empty == [form |-> "empty", own |-> 0, val |-> <<0, 0>>]
Poll(st, e) ==
  LET o == st.objs[e.o] IN
  CASE o.form \in {"wrap", "lent"} ->
         IF Len(e.u) # 1 THEN Fail(st, "not polled exactly once")
         ELSE IF e.r # e.u[1] THEN Fail(st, "another outcome than the original's")
         ELSE IF e.d # << >> THEN Fail(st, "something destroyed by a poll")
         ELSE Given(st, e.r)
    [] o.form = "res" ->
         IF e.u # << >> \/ e.r # Some(o.val) THEN Fail(st, "not ready with its value")
         ELSE IF e.d # << >> THEN Fail(st, "something destroyed by a poll")
         ELSE Given([st EXCEPT !.objs[e.o] = Empty], e.r)
    [] o.form = "empty" ->
         IF e.u # << >> \/ e.r # None \/ e.d # << >> THEN Fail(st, "its value was given out already") ELSE st
    [] o.form \in {"pend", "async"} ->
         IF Len(e.u) # 1 THEN Fail(st, "not polled exactly once")
         ELSE IF e.r # e.u[1] THEN Fail(st, "another outcome than the original's")
         ELSE IF e.r[1] = 1
              THEN IF e.d = Toks(o.own) THEN Given([st EXCEPT !.objs[e.o] = Empty], e.r) ELSE Fail(st, "a done future isn't destroyed once")
              (* pending, or the original panicked (<<-1>>): it stays *)
              ELSE IF e.d = << >> THEN st ELSE Fail(st, "something destroyed by a poll")
    [] OTHER -> Fail(st, "unknown form")
(* what destroying an object destroys *)
Inside(o) == CASE o.form = "res" -> Toks(o.val[2]) [] o.form \in {"wrap", "pend", "async"} -> Toks(o.own) [] OTHER -> << >>
Act(st, e) ==
  CASE e.k = "make" -> IF e.d # << >> THEN Fail(st, "something destroyed in the making")
                       ELSE [st EXCEPT !.objs = Put(@, e.o, [form |-> e.form, own |-> e.own, val |-> e.val])]
    [] e.k = "poll" -> Poll(st, e)
    [] e.k = "move" -> IF e.d # << >> THEN Fail(st, "something destroyed by a move") ELSE st
    [] e.k = "drop" -> IF e.d = Inside(st.objs[e.o]) THEN [st EXCEPT !.objs = Del(@, e.o)] ELSE Fail(st, "its content isn't destroyed once")
    [] e.k = "use" -> IF e.t \in st.held /\ e.d = <<e.t>> THEN [st EXCEPT !.held = @ \ {e.t}] ELSE Fail(st, "a value given out isn't whole")
    [] e.k = "end" -> IF e.left = 0 /\ st.held = {} THEN st ELSE Fail(st, "something is left")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == IF e.bad # 0 THEN Fail(st, "memory misused") ELSE Act(st, e)
=============================================================================

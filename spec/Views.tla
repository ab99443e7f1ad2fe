-------------------------------- MODULE Views --------------------------------
(* A value seen through views of it as another type, views of those views, and so   *)
(* on. However deep, there is one value: its content c and the tokens t in it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* open: kinds of the open views, outermost first; held: tokens given out *)
Init0 == [c |-> << >>, t |-> << >>, open |-> << >>, held |-> {}, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
SeqSet(s) == {s[j] : j \in 1..Len(s)}
Top(st) == IF st.open = << >> THEN "base" ELSE st.open[Len(st.open)]
Quiet(st, e) == IF e.d = << >> THEN st ELSE Fail(st, "something was destroyed")
Act(st, e) ==
  CASE e.k = "make" -> [Quiet(st, e) EXCEPT !.c = e.c, !.t = e.t]
    [] e.k = "open" -> [Quiet(st, e) EXCEPT !.open = Append(@, e.how)]
    [] e.k = "close" -> [Quiet(st, e) EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
    [] e.k = "unwind" -> [Quiet(st, e) EXCEPT !.open = << >>]
    [] e.k = "read" -> IF e.c = st.c /\ e.t = st.t /\ e.d = << >> THEN st ELSE Fail(st, "another content is seen")
    [] e.k = "set" -> IF Top(st) = "ref" THEN Fail(st, "changed through a shared view")
                      ELSE IF SeqSet(e.d) = SeqSet(st.t) /\ Len(e.d) = Len(st.t) THEN [st EXCEPT !.c = e.c, !.t = e.t]
                      ELSE Fail(st, "the overwritten value isn't destroyed once")
    [] e.k = "swap" -> IF e.oc = st.c /\ e.ot = st.t /\ e.d = << >> THEN [st EXCEPT !.c = e.c, !.t = e.t, !.held = @ \cup SeqSet(st.t)]
                       ELSE Fail(st, "another value is taken out")
    [] e.k = "push" -> IF e.d = << >> THEN [st EXCEPT !.c = @ \o e.c, !.t = @ \o e.t] ELSE Fail(st, "something was destroyed")
    [] e.k = "use" -> IF SeqSet(e.t) \subseteq st.held /\ SeqSet(e.d) = SeqSet(e.t) /\ Len(e.d) = Len(e.t) THEN [st EXCEPT !.held = @ \ SeqSet(e.t)]
                      ELSE Fail(st, "a value taken out isn't whole")
    [] e.k = "drop" -> IF SeqSet(e.d) = SeqSet(st.t) /\ Len(e.d) = Len(st.t) THEN [st EXCEPT !.c = << >>, !.t = << >>]
                       ELSE Fail(st, "its content isn't destroyed once")
    [] e.k = "end" -> IF e.left = 0 /\ st.held = {} THEN st ELSE Fail(st, "something is left")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == IF e.bad # 0 THEN Fail(st, "memory misused") ELSE Act(st, e)
=============================================================================

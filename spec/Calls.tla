-------------------------------- MODULE Calls --------------------------------
(* Closures and iterators behind stable objects. A value is <<x, t>>: what           *)
(* it shows and the token in it (0: none). Objects point to things; a thing owns     *)
(* a token, and is destroyed with the last object that owns it.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* objs: object -> thing; things: thing -> [kind, own, refs, lent, n, items];    *)
(* held: tokens given out.                                                           *)
Init0 == [objs |-> << >>, things |-> << >>, held |-> {}, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
Del(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
SeqSet(s) == {s[j] : j \in 1..Len(s)}
Toks(vs) == {vs[j][2] : j \in 1..Len(vs)} \ {0}
(* exactly these tokens, each once, in whatever order *)
Exactly(d, s) == SeqSet(d) = s /\ Len(d) = Cardinality(s)
Give(st, v) == IF v[2] = 0 THEN st ELSE [st EXCEPT !.held = @ \cup {v[2]}]
Of(st, e) == st.things[st.objs[e.o]]
Set(st, e, th) == [st EXCEPT !.things[st.objs[e.o]] = th]
(* what's in a thing: its own token, and what's left in it *)
Inside(th) == ({th.own} \cup {th.items[j][2] : j \in (th.n + 1)..Len(th.items)}) \ {0}
Release(st, e) ==
  LET th == Of(st, e)
      gone == [st EXCEPT !.objs = Del(@, e.o)]
  IN IF th.refs > 1 THEN IF e.d = << >> THEN [gone EXCEPT !.things[st.objs[e.o]].refs = @ - 1] ELSE Fail(st, "destroyed while shared")
     ELSE IF Exactly(e.d, IF th.lent = 1 THEN {} ELSE Inside(th)) THEN [gone EXCEPT !.things = Del(@, st.objs[e.o])]
     ELSE Fail(st, "what it captured isn't destroyed once")
Call(st, e) ==
  LET th == Of(st, e)
      once == th.kind = "once"
  IN IF Len(e.u) # 1 THEN Fail(st, "not called exactly once")
     ELSE IF e.u[1].own # th.own THEN Fail(st, "another closure called")
     ELSE IF e.u[1].n # th.n + 1 THEN Fail(st, "its state is not what calls left")
     ELSE IF e.u[1].args # e.args THEN Fail(st, "other arguments")
     ELSE IF e.u[1].r # e.r THEN Fail(st, "another result")
     ELSE IF ~Exactly(e.d, (Toks(e.args) \cup (IF once THEN {th.own} ELSE {})) \ {e.r[2]}) THEN Fail(st, "arguments or captured values aren't destroyed once")
     ELSE Give(IF once THEN [st EXCEPT !.objs = Del(@, e.o), !.things = Del(@, st.objs[e.o])]
               ELSE Set(st, e, [th EXCEPT !.n = @ + 1]), e.r)
NoItem == << >>
Item(th, j) == IF j <= Len(th.items) THEN th.items[j] ELSE NoItem
Min(a, b) == IF a < b THEN a ELSE b
(* passing k items over and giving the next one; the original is asked for each *)
Nth(st, e, k) ==
  LET th == Of(st, e)
      r == Item(th, th.n + k + 1)
      asked == Min(k + 1, Len(th.items) - th.n + 1)
  IN IF e.r # r THEN Fail(st, "another item")
     ELSE IF e.u # [j \in 1..asked |-> Item(th, th.n + j)] THEN Fail(st, "the original isn't asked for each item once")
     ELSE IF ~Exactly(e.d, Toks(SubSeq(th.items, th.n + 1, Min(th.n + k, Len(th.items))))) THEN Fail(st, "items passed over aren't destroyed once")
     ELSE LET s == Set(st, e, [th EXCEPT !.n = Min(@ + k + 1, Len(th.items))])
          IN IF r = NoItem THEN s ELSE Give(s, r)
Rest(st, e) ==
  LET th == Of(st, e)
      l == SubSeq(th.items, th.n + 1, Len(th.items))
  IN IF e.r # l \/ e.d # << >> THEN Fail(st, "other items")
     ELSE [Set(st, e, [th EXCEPT !.n = Len(th.items)]) EXCEPT !.held = @ \cup Toks(l)]
Act(st, e) ==
  CASE e.k = "make" -> IF e.d # << >> THEN Fail(st, "something destroyed in the making")
                       ELSE [st EXCEPT !.objs = Put(@, e.o, e.o),
                                       !.things = Put(@, e.o, [kind |-> e.kind, own |-> e.own, refs |-> 1, lent |-> e.lent, n |-> 0, items |-> e.items])]
    [] e.k = "clone" -> IF e.d # << >> THEN Fail(st, "something destroyed by cloning")
                        ELSE [st EXCEPT !.objs = Put(@, e.to, st.objs[e.o]), !.things[st.objs[e.o]].refs = @ + 1]
    [] e.k = "call" -> Call(st, e)
    [] e.k = "next" -> Nth(st, e, 0)
    [] e.k = "nth" -> Nth(st, e, e.n)
    [] e.k = "rest" -> Rest(st, e)
    [] e.k = "hint" -> IF e.u = <<e.r>> /\ e.d = << >> THEN st ELSE Fail(st, "another size hint")
    [] e.k = "drop" -> Release(st, e)
    [] e.k = "use" -> IF e.t \in st.held /\ e.d = <<e.t>> THEN [st EXCEPT !.held = @ \ {e.t}] ELSE Fail(st, "a value given out isn't whole")
    [] e.k = "end" -> IF e.left = 0 /\ st.held = {} THEN st ELSE Fail(st, "something is left")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == IF e.bad # 0 THEN Fail(st, "memory misused") ELSE Act(st, e)
=============================================================================

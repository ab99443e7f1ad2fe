------------------------------- MODULE DynObj -------------------------------
(* Trait objects. An object is a value of one concrete type (its tag) with a    *)
(* state v; a handle is one way to reach an object (owning box, shared pointer,  *)
(* mutable or shared borrow, weak pointer) through a set of traits. Whatever the *)
(* handle, a method runs the code of the object's tag on the object's state; a   *)
(* downcast succeeds exactly for the object's tag; the object is destroyed when  *)
(* its last owner goes, and by nobody else.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Box == 0
Shared == 1
Mut == 2
Ref == 3
Weak == 4

(* ---- the types ------------------------------------------------------------ *)
Narrow == {7, 11, 12}                  \* one byte of state
Empty == {8}                           \* no state
Silent == {11, 12}                     \* destruction can't be observed
Anonymous == Narrow \cup Empty         \* no identity
Norm(tag, v) == IF tag \in Narrow THEN v % 256 ELSE IF tag \in Empty THEN 0 ELSE v
IdOf(tag, id) == IF tag \in Anonymous THEN 0 ELSE id

(* ---- the sets of traits, innermost first ----------------------------------- *)
VT == << << >>, <<"ta">>, <<"ta", "any">>, <<"ta", "any", "tb">>, <<"ta", "any", "tb", "tc">>,
        <<"ta", "any", "send">>, <<"ta", "any", "tb", "send">>, <<"ta", "any", "tb", "tc", "send">>,
        <<"ta", "any", "tb", "tc", "send", "sync">>, <<"ta", "any", "tb", "tc", "sync", "send">>,
        <<"ta", "any", "tb", "send", "sync">>, <<"ta", "any", "tb", "sync", "send">>, <<"ta", "any", "tb", "sync">>,
        <<"ta", "any", "tb", "tc", "sync">>, <<"tc", "send", "tb", "ta", "any">>, <<"tc", "send", "tb", "ta">>,
        <<"tc", "send", "tb">>, <<"tc", "send">>, <<"tc">>, <<"any", "tc", "ta", "sync">> >>
Traits(vt) == {VT[vt + 1][i] : i \in DOMAIN VT[vt + 1]}
(* An upcast removes traits: what is left is what there was, without some.      *)
Upcast(a, b) == Traits(b) \subseteq Traits(a)

(* ---- the methods: what each returns and the state it leaves ----------------- *)
MethodTrait(m) == CASE m \in {0, 1, 2, 3, 12} -> "ta" [] m \in {4, 5, 6} -> "tb" [] m \in {7, 8, 9, 10} -> "tc" [] OTHER -> "any"
Mutates == {0, 5, 7, 10}
Base(o) == o.v + 1000 * o.tag
After(o, m, a) ==
  Norm(o.tag, CASE m = 0 -> o.v + a[1] [] m = 5 -> (a[1] % 256) + a[2] [] m = 7 -> o.v + 2 * a[1] [] m = 10 -> o.v + a[1] [] OTHER -> o.v)
Returns(o, m, a) ==
  LET w == After(o, m, a) IN
  CASE m = 0 -> <<w + 1000 * o.tag>>
    [] m = 1 -> <<Base(o) + a[1]>>
    [] m = 2 -> <<(a[1] % 256) + 3 * a[2] + 5 * a[3] + 7 * o.v + 1000 * o.tag>>
    [] m = 3 -> <<Base(o) + a[1] + 1>>
    [] m = 4 -> <<2 * (a[1] % 256) + Base(o) + 1>>
    [] m = 5 -> <<o.v % 256>>
    [] m = 6 -> <<a[2] + (a[1] % 256), Base(o)>>
    [] m = 7 -> <<w + 1000 * o.tag + 500>>
    [] m = 8 -> <<IF a[3] % 2 = 1 THEN 1 ELSE 2>>
    [] m = 9 -> <<a[1] + (a[2] % 256) + (a[3] % 256) + Base(o)>>
    [] m = 10 -> <<-1>>                     \* the method panics after its change
    [] m = 11 -> <<o.tag, 1>>               \* whose report it is, and whether the identifier agrees
    [] m = 12 -> <<1>>                      \* whether it was given the object's address
    [] OTHER -> << >>

(* ---- handles and objects ----------------------------------------------------- *)
Handles(st, o, kinds) == {s \in DOMAIN st.sl : st.sl[s].obj = o /\ st.sl[s].kind \in kinds}
None == [obj |-> 0, kind |-> -1, vt |-> 0]
InitWith(n) == [sl |-> [s \in 1..n |-> None], obj |-> << >>, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Tomb(o) == IF o.tag \in Silent THEN << >> ELSE <<<<o.tag, o.v, o.id>>>>
(* A shared object can be modified through a handle that is its only one.        *)
Alone(st, o) == Cardinality(Handles(st, o, {Shared})) = 1 /\ Handles(st, o, {Weak}) = {}
(* Dropping handle s: the state afterwards and what is destroyed.                 *)
Dropped(st, s) ==
  LET h == st.sl[s]
      st2 == [st EXCEPT !.sl[s] = None]
      last == h.kind = Box \/ (h.kind = Shared /\ Handles(st2, h.obj, {Shared}) = {})
  IN IF last THEN [st |-> [st2 EXCEPT !.obj[h.obj].alive = FALSE], d |-> Tomb(st.obj[h.obj])] ELSE [st |-> st2, d |-> << >>]
(* Blocks of memory in use: one per boxed object, one per shared object that has  *)
(* a handle of any kind.                                                          *)
Blocks(st) == Cardinality({o \in DOMAIN st.obj : Handles(st, o, {Box, Shared, Weak}) # {}})

(* ---- observed events ---------------------------------------------------------- *)
Act(st, e) ==
  LET h == st.sl[e.s]
      o == IF h.obj = 0 THEN [tag |-> -1] ELSE st.obj[h.obj]
      x == e.x
  IN CASE e.k = "new" ->
            IF e.r # << >> THEN Fail(st, "making the object panicked")
            ELSE LET n == Len(st.obj) + 1 IN
                 [st EXCEPT !.sl[e.s] = [obj |-> n, kind |-> x[1], vt |-> x[2]],
                            !.obj = Append(@, [tag |-> x[3], v |-> Norm(x[3], x[4]), id |-> IdOf(x[3], e.a[1]), alive |-> TRUE])]
       [] e.k = "call" ->
            LET m == x[2]
                refused == x[1] = 3 /\ h.kind = Shared /\ ~Alone(st, h.obj)
            IN IF h.kind \in {-1, Weak} THEN Fail(st, "a call through nothing")
               ELSE IF refused THEN IF e.r = <<-2>> THEN st ELSE Fail(st, "mutable access to a shared object")
               ELSE IF ~(MethodTrait(m) \in Traits(h.vt)) THEN Fail(st, "a method that isn't there")
               ELSE IF e.r # Returns(o, m, e.a) THEN Fail(st, "a method returned something else")
               ELSE [st EXCEPT !.obj[h.obj].v = After(o, m, e.a)]
       [] e.k = "down" ->
            LET yes == e.r[1] = 1
                same == x[2] = o.tag
                stable == x[1] \in {0, 1, 4}
            IN IF yes /\ ~same THEN Fail(st, "downcast to another type")
               ELSE IF stable /\ same /\ ~yes THEN Fail(st, "downcast to the object's own type refused")
               ELSE IF yes /\ e.r # <<1, o.v, 1>> THEN Fail(st, "a downcast gives access to something else")
               ELSE IF yes /\ x[1] \in {1, 3} THEN [st EXCEPT !.obj[h.obj].v = Norm(o.tag, x[3])] ELSE st
       [] e.k = "up" -> IF Upcast(h.vt, x[1]) THEN [st EXCEPT !.sl[e.s].vt = x[1]] ELSE Fail(st, "not an upcast")
       [] e.k = "dup" -> IF h.kind \in {Shared, Ref, Weak} /\ st.sl[x[1]].kind = -1 THEN [st EXCEPT !.sl[x[1]] = h] ELSE Fail(st, "copy of a unique handle")
       [] e.k = "downgrade" -> IF h.kind = Shared THEN [st EXCEPT !.sl[x[1]] = [h EXCEPT !.kind = Weak]] ELSE Fail(st, "weak handle to an object that isn't shared")
       [] e.k = "upgrade" ->
            IF h.kind # Weak THEN Fail(st, "upgrade of a strong handle")
            ELSE IF e.r # <<IF o.alive THEN 1 ELSE 0>> THEN Fail(st, "wrong upgrade")
            ELSE [st EXCEPT !.sl[e.s] = IF o.alive THEN [h EXCEPT !.kind = Shared] ELSE None]
       [] e.k = "drop" -> IF h.kind = -1 THEN Fail(st, "dropped twice") ELSE Dropped(st, e.s).st
       [] e.k = "back" -> st   \* checked by Destroyed
       [] e.k = "end" -> IF \E s \in DOMAIN st.sl : st.sl[s].kind # -1 THEN Fail(st, "handles left") ELSE st
       [] OTHER -> Fail(st, "unknown event")
(* What must be destroyed by event e.                                            *)
Destroyed(st, e) ==
  IF e.k = "drop" /\ st.sl[e.s].kind # -1 THEN Dropped(st, e.s).d
  ELSE IF e.k = "upgrade" THEN << >>
  ELSE << >>
(* "back": the owner of a borrowed object looks at it, then destroys it, once no  *)
(* handle is left.                                                               *)
Back(st, e) ==
  LET Borrowed == {o \in DOMAIN st.obj : st.obj[o].alive /\ Handles(st, o, {Box, Shared, Mut, Ref}) = {} /\ e.r = <<st.obj[o].tag, st.obj[o].v, st.obj[o].id>>}
  IN IF Borrowed = {} THEN Fail(st, "a borrowed object isn't what was left")
     ELSE LET o == CHOOSE o \in Borrowed : TRUE IN
          IF e.d # Tomb(st.obj[o]) THEN Fail(st, "destruction of a borrowed object") ELSE [st EXCEPT !.obj[o].alive = FALSE]
Step(st, e) ==
  IF e.bad # << >> THEN Fail(st, e.bad[1])
  ELSE IF e.live # << >> THEN Fail(st, "an argument wasn't consumed")
  ELSE IF e.k = "back" THEN Back(st, e)
  ELSE LET s2 == Act(st, e) IN
       IF s2.err # "" THEN s2
       ELSE IF e.d # Destroyed(st, e) THEN Fail(s2, "destroyed too early, too late, or more than once")
       ELSE IF e.blocks # Blocks(s2) THEN Fail(s2, "memory released too early or too late")
       ELSE IF e.k = "end" /\ \E o \in DOMAIN s2.obj : s2.obj[o].alive THEN Fail(s2, "objects left") ELSE s2
=============================================================================

------------------------------ MODULE BTreeLin ------------------------------
(* An atomically edited tree (AtomicArcBTreeSet): an edit reads the current     *)
(* content, computes a new one from it, and installs it only if the content is  *)
(* still the one it read (else it starts over); a lookup sees the content of    *)
(* one instant. Contents are those of BTree, with the identity of each element, *)
(* which nobody destroys while a content that holds it is installed or in use.  *)
(*   configuration: [cell |-> content, pend |-> thread -> operation in progress] *)
(*   phases of an edit: 0 to read, 1 has read, 2 computing, 3 computed, 9 done   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE BTree WITH NS <- 1
Threads == 0..3
NoOp == [op |-> "", a |-> << >>, ph |-> 0, arg |-> << >>, res |-> << >>]
Init0 == [cell |-> << >>, pend |-> [t \in Threads |-> NoOp]]
Lin(c, t) ==
  LET p == c.pend[t] IN
  CASE p.op = "" \/ p.ph \in {1, 2, 9} -> {}
    [] p.ph = 0 -> {[c EXCEPT !.pend[t].ph = 1, !.pend[t].arg = c.cell]}
    [] p.ph = 3 -> (* what leaves the content as it is takes effect when it was read *)
         (IF p.res = p.arg THEN {[c EXCEPT !.pend[t].ph = 9]} ELSE {})
         \cup (IF c.cell = p.arg THEN {[c EXCEPT !.cell = p.res, !.pend[t].ph = 9]} ELSE {})
         \cup {[c EXCEPT !.pend[t] = [p EXCEPT !.ph = 0, !.arg = << >>, !.res = << >>]]}
RECURSIVE Closure(_, _)
Closure(C, F) == LET N == UNION {Lin(c, t) : c \in F, t \in Threads} \ C IN IF N = {} THEN C ELSE Closure(C \cup N, N)
Ids(s) == {s[i][3] : i \in DOMAIN s}
(* Content after inserting the pairs <<key, value>> of l, with the replacement   *)
(* rule rep, without identities.                                                *)
Plain(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2]>>]
RECURSIVE Fold(_, _, _)
Fold(s, rep, l) == IF Len(l) < 2 THEN s ELSE Fold(B!Insert(s, rep, <<l[1], l[2]>>).c, rep, SubSeq(l, 3, Len(l)))
Expected(p) == CASE p.op = "edit" -> Fold(Plain(p.arg), p.a[1], Tail(p.a))
                 [] p.op = "clear" -> << >>
                 [] OTHER -> Plain(p.arg)
InUse(c) == Ids(c.cell) \cup UNION {Ids(c.pend[t].arg) : t \in {u \in Threads : c.pend[u].ph = 2}}
                        \cup UNION {Ids(c.pend[t].res) : t \in {u \in Threads : c.pend[u].ph = 3}}
Idle(c) == \A t \in Threads : c.pend[t].op = ""
Step(C, e) ==
  LET L == Closure(C, C) IN
  CASE e.k = "inv" -> {[c EXCEPT !.pend[e.t] = [NoOp EXCEPT !.op = e.op, !.a = e.a]] : c \in {d \in C : d.pend[e.t].op = ""}}
    (* the edit function is called with a content, and returns one *)
    [] e.k = "call" -> {[c EXCEPT !.pend[e.t].ph = 2] : c \in {d \in L : d.pend[e.t].ph = 1 /\ d.pend[e.t].arg = e.c}}
    [] e.k = "computed" -> {[c EXCEPT !.pend[e.t].ph = 3, !.pend[e.t].res = e.c] :
                              c \in {d \in C : d.pend[e.t].ph = 2 /\ Plain(e.c) = Expected(d.pend[e.t])}}
    (* a lookup hands out a reference to what it found, for as long as a callback lasts *)
    [] e.k = "found" -> {[c EXCEPT !.pend[e.t].ph = 2, !.pend[e.t].arg = e.c] :
                           c \in {d \in L : d.pend[e.t].ph = 1 /\ B!Find(d.pend[e.t].arg, d.pend[e.t].a[1]) = e.c}}
    [] e.k = "released" -> {[c EXCEPT !.pend[e.t].ph = 9] : c \in {d \in C : d.pend[e.t].op = "get" /\ d.pend[e.t].ph = 2}}
    [] e.k = "ret" -> {[c EXCEPT !.pend[e.t] = NoOp] : c \in {d \in L : d.pend[e.t].ph = 9}}
    [] e.k = "cloned" -> C
    [] e.k = "destroy" -> {c \in L : e.a[1] \notin InUse(c)}
    [] e.k = "quiet" -> {c \in C : Idle(c) /\ B!Range(e.a) = Ids(c.cell)}
    [] e.k = "end" -> {c \in C : Idle(c) /\ e.a = << >> /\ e.blocks = 0 /\ e.misuse = 0}
    [] OTHER -> {}
=============================================================================

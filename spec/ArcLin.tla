------------------------------ MODULE ArcLin ------------------------------
(* Shared values (Arc, Weak, ArcSlice, WeakSlice, trait objects over them)  *)
(* and atomic cells (AtomicArc), as users see them: every operation takes   *)
(* effect at one instant between its invocation and its return; operations  *)
(* that release a value as a second effect (store, failed compare-exchange, *)
(* copy-on-write) do so at a later instant of the same call.                *)
(*                                                                          *)
(* A configuration is [obj, pend, cell, own]:                               *)
(*  obj   : object (its block number) -> [s, w, toks, val, freed]           *)
(*          s/w: number of strong/weak handles; toks: values still in it    *)
(*  pend  : thread -> operation in progress                                 *)
(*  cell  : cell number -> object it holds (0: none); it owns one handle    *)
(*  own   : values moved out of shared objects, now owned by the caller     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Threads == 0..3
NoOp == [op |-> "", a |-> <<>>, ph |-> 0, r |-> <<>>, blk |-> 0, tok |-> 0]
Init0 == [obj |-> <<>>, pend |-> [t \in Threads |-> NoOp], cell |-> <<>>, own |-> {}]

Has(c, o) == o \in DOMAIN c.obj
Alive(c, o) == Has(c, o) /\ c.obj[o].s > 0
Unique(c, o) == Alive(c, o) /\ c.obj[o].s = 1 /\ c.obj[o].w = 0
AddS(c, o, n) == IF o = 0 THEN c ELSE [c EXCEPT !.obj[o].s = @ + n]
AddW(c, o, n) == [c EXCEPT !.obj[o].w = @ + n]
Done(c, t, r) == [c EXCEPT !.pend[t].ph = 9, !.pend[t].r = r]
Phase(c, t, n, r) == [c EXCEPT !.pend[t].ph = n, !.pend[t].r = r]

(* The configurations that the pending operation of t may lead to by its    *)
(* next internal step.                                                      *)
Lin(c, t) ==
  LET p == c.pend[t]
      a == p.a
      o == IF a = <<>> THEN 0 ELSE a[1]
  IN CASE p.op = "" \/ p.ph = 9 -> {}
       [] p.op \in {"clone", "downgrade", "read", "strong_count", "weak_count", "is_unique", "get_mut", "make_mut", "into_inner", "tovec", "same", "drops"} /\ ~Alive(c, o) -> {}
       [] p.op \in {"wclone", "dropw", "upgrade", "dynupgrade"} /\ ~(Has(c, o) /\ c.obj[o].w > 0) -> {}
       [] p.op = "new" -> {Done(c, t, <<>>)}
       [] p.op = "clone" -> {Done(AddS(c, o, 1), t, <<1, o>>)}
       [] p.op = "downgrade" -> {Done(AddW(c, o, 1), t, <<1, o>>)}
       [] p.op = "wclone" -> {Done(AddW(c, o, 1), t, <<1, o>>)}
       [] p.op = "drops" -> {Done(AddS(c, o, -1), t, <<>>)}
       [] p.op = "dropw" -> {Done(AddW(c, o, -1), t, <<>>)}
       [] p.op = "dropt" -> {Done(c, t, <<>>)}
       [] p.op = "upgrade" ->
            IF c.obj[o].s > 0 THEN {Done(AddS(c, o, 1), t, <<1, o>>)} ELSE {Done(c, t, <<0>>)}
       (* consumes the weak handle *)
       [] p.op = "dynupgrade" /\ p.ph = 0 ->
            IF c.obj[o].s > 0 THEN {Phase(AddS(c, o, 1), t, 1, <<1, o>>)} ELSE {Phase(c, t, 1, <<0>>)}
       [] p.op = "dynupgrade" -> {Done(AddW(c, o, -1), t, p.r)}
       [] p.op = "same" -> {Done(c, t, <<o>>)}
       [] p.op = "read" -> {Done(c, t, <<c.obj[o].val>>)}
       [] p.op = "strong_count" -> {Done(c, t, <<c.obj[o].s>>)}
       [] p.op = "weak_count" -> {Done(c, t, <<c.obj[o].w + 1>>)}
       [] p.op = "is_unique" -> {Done(c, t, <<IF Unique(c, o) THEN 1 ELSE 0>>)}
       [] p.op = "get_mut" ->
            IF Unique(c, o) THEN {Done([c EXCEPT !.obj[o].val = a[2]], t, <<1>>)} ELSE {Done(c, t, <<0>>)}
       [] p.op = "tovec" ->
            IF Unique(c, o) THEN {Done([c EXCEPT !.obj[o].val = a[2]], t, <<1>>)} ELSE {Done(c, t, <<0, o>>)}
       [] p.op = "into_inner" ->
            IF Unique(c, o)
            THEN {Done([c EXCEPT !.obj[o].s = 0, !.obj[o].toks = {}, !.own = @ \cup c.obj[o].toks], t, <<1>>)}
            ELSE {Done(c, t, <<0, o>>)}
       [] p.op = "make_mut" /\ p.ph = 0 ->
            IF Unique(c, o) THEN {Done([c EXCEPT !.obj[o].val = a[2]], t, <<1, o>>)} ELSE {Phase(c, t, 1, <<>>)}
       (* not the only handle: the copy was made, its own handle is released *)
       [] p.op = "make_mut" -> IF p.blk # 0 /\ p.tok # 0 THEN {Done(AddS(c, o, -1), t, <<2, p.blk>>)} ELSE {}
       [] p.op = "cellnew" -> {Done([c EXCEPT !.cell = (o :> a[2]) @@ @], t, <<>>)}
       [] p.op = "celldrop" -> {Done([AddS(c, c.cell[o], -1) EXCEPT !.cell[o] = 0], t, <<>>)}
       [] p.op = "load" -> {Done(AddS(c, c.cell[o], 1), t, <<c.cell[o]>>)}
       [] p.op = "store" /\ p.ph = 0 -> {Phase([c EXCEPT !.cell[o] = a[2]], t, 1, <<c.cell[o]>>)}
       [] p.op = "store" -> {Done(AddS(c, p.r[1], -1), t, <<>>)}
       [] p.op = "is" ->
            IF c.cell[o] = a[2] THEN {Done(c, t, <<1>>)} ELSE {Done(AddS(c, c.cell[o], 1), t, <<0, c.cell[o]>>)}
       [] p.op = "cas" /\ p.ph = 0 ->
            IF c.cell[o] = a[2]
            THEN {Done([c EXCEPT !.cell[o] = a[3]], t, <<1, c.cell[o]>>)}
            ELSE {Phase(AddS(c, c.cell[o], 1), t, 1, <<0, c.cell[o]>>)}
       [] p.op = "cas" -> {Done(AddS(c, a[3], -1), t, p.r)}
       [] OTHER -> {}

RECURSIVE Closure(_, _)
Closure(C, F) ==
  LET N == UNION {Lin(c, t) : c \in F, t \in Threads} \ C
  IN IF N = {} THEN C ELSE Closure(C \cup N, N)

(* Return values: what the model computed must be a prefix of what was      *)
(* returned; what follows the prefix is checked by CanRet.                  *)
CanRet(c, t, r, x) ==
  LET p == c.pend[t] IN
  /\ p.ph = 9
  /\ CASE p.op = "new" -> Len(r) = 2 /\ r[1] = 1 /\ r[2] = p.blk /\ r[2] # 0
       [] p.op = "read" -> r # <<>> => r[1] = p.r[1] /\ (Len(r) = 2 => r[2] \in c.obj[p.a[1]].toks)
       [] p.op = "into_inner" -> IF p.r = <<1>> THEN Len(r) = 2 /\ r[1] = 1 /\ r[2] \in c.own ELSE r = p.r
       [] p.op = "tovec" ->
            IF p.r = <<1>>
            THEN Len(r) = 3 /\ r[1] = 1 /\ r[3] = Len(x) /\ {x[i] : i \in DOMAIN x} = c.obj[p.a[1]].toks
                 /\ (r[2] = p.a[1] \/ (r[3] = 0 /\ r[2] = p.blk /\ r[2] # 0))
            ELSE r = p.r
       [] p.op = "make_mut" ->
            /\ r = p.r
            /\ IF r[1] = 1 THEN x[1] \in c.obj[r[2]].toks ELSE x[1] = p.tok
       [] OTHER -> r = p.r
NewObj(s, toks, v) == [s |-> s, w |-> 0, toks |-> toks, val |-> v, freed |-> FALSE]
Ret(c, t, r, x) ==
  LET p == c.pend[t]
      d == [c EXCEPT !.pend[t] = NoOp]
  IN CASE p.op = "new" -> [d EXCEPT !.obj = (r[2] :> NewObj(1, {x[i] : i \in DOMAIN x}, p.a[1])) @@ @]
       [] p.op = "make_mut" /\ r[1] = 2 -> [d EXCEPT !.obj = (r[2] :> NewObj(1, {p.tok}, p.a[2])) @@ @]
       (* an empty slice without memory to keep may move to another block *)
       [] p.op = "tovec" /\ r[1] = 1 /\ r[2] # p.a[1] ->
            [d EXCEPT !.obj = (r[2] :> NewObj(1, {}, p.a[2])) @@ [@ EXCEPT ![p.a[1]].s = 0]]
       [] OTHER -> d

(* Destruction of a value: only once nothing strong is left (or by its own  *)
(* owner); deallocation: only once nothing at all is left.                  *)
CanDestroy(c, t, k) ==
  \/ \E o \in DOMAIN c.obj : k \in c.obj[o].toks /\ c.obj[o].s = 0
  \/ k \in c.own /\ c.pend[t].op = "dropt" /\ c.pend[t].a = <<k>>
Destroy(c, k) == [c EXCEPT !.own = @ \ {k}, !.obj = [o \in DOMAIN @ |-> [@[o] EXCEPT !.toks = @ \ {k}]]]
CanFree(c, t, b) ==
  \/ Has(c, b) /\ c.obj[b].s = 0 /\ c.obj[b].w = 0 /\ c.obj[b].toks = {} /\ ~c.obj[b].freed
  (* the empty slice that tovec moves *)
  \/ Has(c, b) /\ c.pend[t].op = "tovec" /\ c.pend[t].a[1] = b /\ c.obj[b].toks = {} /\ ~c.obj[b].freed /\ Unique(c, b)
Free(c, b) == [c EXCEPT !.obj[b].freed = TRUE]
(* With no operation in progress, what has no owner left is gone.           *)
Settled(c) ==
  \A o \in DOMAIN c.obj : /\ c.obj[o].s = 0 => c.obj[o].toks = {}
                          /\ c.obj[o].s = 0 /\ c.obj[o].w = 0 => c.obj[o].freed
Idle(c) == \A t \in Threads : c.pend[t].op = ""

(* One observed event, on a set of possible configurations.                 *)
Step(C, e) ==
  LET L == Closure(C, C) IN
  CASE e.k = "inv" -> {[c EXCEPT !.pend[e.t] = [NoOp EXCEPT !.op = e.op, !.a = e.a]] : c \in {d \in C : d.pend[e.t].op = ""}}
    [] e.k = "ret" -> {Ret(c, e.t, e.r, e.x) : c \in {d \in L : CanRet(d, e.t, e.r, e.x)}}
    [] e.k = "alloc" -> {[c EXCEPT !.pend[e.t].blk = e.a[1]] : c \in {d \in C : d.pend[e.t].op \in {"new", "make_mut", "tovec"} /\ d.pend[e.t].blk = 0}}
    [] e.k = "cloned" -> {[c EXCEPT !.pend[e.t].tok = e.a[2]] :
                            c \in {d \in L : d.pend[e.t].op = "make_mut" /\ d.pend[e.t].ph = 1 /\ d.pend[e.t].tok = 0 /\ e.a[1] \in d.obj[d.pend[e.t].a[1]].toks}}
    [] e.k = "destroy" -> {Destroy(c, e.a[1]) : c \in {d \in L : CanDestroy(d, e.t, e.a[1])}}
    [] e.k = "free" -> {Free(c, e.a[1]) : c \in {d \in L : CanFree(d, e.t, e.a[1])}}
    [] e.k = "quiet" -> {c \in C : Idle(c) /\ Settled(c)}
    [] e.k = "end" -> {c \in C : Idle(c) /\ Settled(c) /\ e.a = <<>> /\ e.x = <<>> /\ \A o \in DOMAIN c.obj : c.obj[o].freed}
    [] OTHER -> {}
============================================================================

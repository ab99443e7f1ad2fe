------------------------------- MODULE Cont --------------------------------
(* Owning containers: Vec, BoxedSlice, ArcSlice/WeakSlice, SingleOrVec, Box,  *)
(* Arc, and the iterators and drains borrowed from or made of them.           *)
(*                                                                            *)
(* A world is a handful of slots, each holding one container. Elements are    *)
(* tokens (numbers); cloning makes new ones. One event is one public call:    *)
(* Do(st, ev, C) is the set of outcomes that the call may have: the new slots *)
(* and shared storages, the result r, and the tokens d destroyed during it.   *)
(* C is the set of capacities an implementation may choose among.             *)
(*                                                                            *)
(* ev.f = 1: the allocator refused a request during the call;                 *)
(* ev.p = 1: user code (an iterator, a clone, a destructor) panicked.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NS
None == [k |-> "none", s |-> << >>, m |-> << >>, t |-> << >>, cap |-> 0, o |-> 0]
Init0(z) == [sl |-> [i \in 1..NS |-> None], ob |-> << >>, val |-> << >>, z |-> z, lost |-> << >>, lb |-> 0, err |-> ""]
(* -------- sequences -------- *)
Cnt(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Cnt(a, a[i]) = Cnt(b, a[i])
Take(s, n) == SubSeq(s, 1, n)
Skip(s, n) == SubSeq(s, n + 1, Len(s))
Del(s, i) == Take(s, i - 1) \o Skip(s, i)
Swp(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Tos(c) == [i \in DOMAIN c |-> c[i][2]]
Inf == -1
Room(z, a) == IF z THEN 1000000 ELSE a.cap - Len(a.s)
Vec(s, cap) == [None EXCEPT !.k = "vec", !.s = s, !.cap = cap]
Linear == {"vec", "sov"}
Slice == {"vec", "sov", "bs", "arc", "box", "arc1"}
(* the elements visible through a slot *)
Content(st, a) == IF a.k \in {"arc", "arc1"} THEN st.ob[a.o].s ELSE a.s
(* -------- outcomes -------- *)
Out(st, r, d) == [sl |-> st.sl, ob |-> st.ob, r |-> r, d |-> d, q |-> 0, lost |-> << >>, lb |-> 0]
Put(o, i, a) == [o EXCEPT !.sl[i] = a]
Q(o, n) == [o EXCEPT !.q = n]
Panic == << -1 >>
(* Outcomes where slot i becomes a with room for add more elements, which f(a) then uses. *)
Grown(z, a, add, C) == IF Room(z, a) >= add THEN {a} ELSE {[a EXCEPT !.cap = c, !.m = << >>] : c \in {x \in C : x >= Len(a.s) + add}}
Asked(z, a, add) == IF Room(z, a) >= add THEN 0 ELSE 1
Pushed(st, i, x, C, r) ==
  LET a == st.sl[i]
  IN IF a.k = "sov" /\ ~st.z /\ a.cap = 0
     THEN {Put(Out(st, r, << >>), i, [a EXCEPT !.s = << x >>, !.cap = 1, !.m = << 1 >>])}
     ELSE {Q(Put(Out(st, r, << >>), i, [b EXCEPT !.s = Append(@, x)]), Asked(st.z, a, 1)) : b \in Grown(st.z, a, 1, C)}
NewObj(s, cap) == [s |-> s, sc |-> 1, wc |-> 0, cap |-> cap]
Val(st, id) == IF st.z THEN 0 ELSE st.val[id]
RECURSIVE Cmp(_, _, _)
Cmp(st, a, b) == IF a = << >> THEN (IF b = << >> THEN 1 ELSE 0)
                 ELSE IF b = << >> THEN 2
                 ELSE IF Val(st, a[1]) < Val(st, b[1]) THEN 0
                 ELSE IF Val(st, a[1]) > Val(st, b[1]) THEN 2
                 ELSE Cmp(st, Tail(a), Tail(b))
(* cloning the elements of a, observed as ev.c *)
Clones(a, c) == Len(c) = Len(a) /\ \A i \in DOMAIN a : c[i][1] = a[i]
SomeClones(a, c) == Len(c) <= Len(a) /\ \A i \in DOMAIN c : c[i][1] = a[i]
(* the release of one strong handle *)
DropStrong(o, id, st) ==
  LET b == st.ob[id]
  IN [o EXCEPT !.ob[id].sc = @ - 1, !.d = @ \o (IF b.sc = 1 THEN b.s ELSE << >>), !.ob[id].s = IF b.sc = 1 THEN << >> ELSE @]
DropOf(st, i) ==
  LET a == st.sl[i]
      o == Put(Out(st, << 0 >>, << >>), i, None)
  IN CASE a.k \in {"vec", "sov", "bs", "box"} -> [o EXCEPT !.d = a.s]
       [] a.k = "into" -> [o EXCEPT !.d = a.m]
       [] a.k \in {"arc", "arc1"} -> DropStrong(o, a.o, st)
       [] a.k \in {"weak", "weak1"} -> [o EXCEPT !.ob[a.o].wc = @ - 1]
       [] a.k \in {"drain", "dd"} -> [Put(o, i, Vec(a.s \o a.t, a.cap)) EXCEPT !.d = a.m]
Unique(st, a) == st.ob[a.o].sc = 1 /\ st.ob[a.o].wc = 0
Do(st, ev, C) ==
  LET i == ev.s
      j == ev.t
      a == IF i = 0 THEN None ELSE st.sl[i]
      x == ev.a
      n == Len(a.s)
      z == st.z
      fail == ev.f = 1
      k == ev.k
      Same(r) == {Out(st, r, << >>)}
      Or(cond, s) == IF cond THEN s ELSE {}
      InRange(lo, hi) == lo <= hi /\ hi <= n
      Fresh(b) == {Q(Put(Out(st, << 0 >>, << >>), i, b), 1)}
  IN CASE
  (* ---- construction ---- *)
     k = "new" -> {Put(Out(st, << 0 >>, << >>), i, [None EXCEPT !.k = x[1], !.cap = IF z THEN Inf ELSE 0])}
  [] k = "withcap" -> (* x = <<kind, capacity, 1 if fallible>> *)
       LET cs == IF z THEN {Inf} ELSE IF x[2] = 0 THEN {0} ELSE {c \in C : c >= x[2]}
       IN {Q(Put(Out(st, << 0 >>, << >>), i, [None EXCEPT !.k = x[1], !.cap = c]), IF x[2] = 0 \/ z THEN 0 ELSE 1) : c \in cs}
          \cup Or(fail, {Q(Out(st, IF x[3] = 1 THEN << 2 >> ELSE Panic, << >>), 1)})
  [] k \in {"newbox", "newarc"} -> (* x = <<1 if fallible, token>> *)
       (IF k = "newbox" THEN Fresh([None EXCEPT !.k = "box", !.s = << x[2] >>])
        ELSE {[Put(o, i, [None EXCEPT !.k = "arc1", !.o = Len(st.ob) + 1]) EXCEPT !.ob = Append(@, NewObj(<< x[2] >>, 1))] : o \in {Q(Out(st, << 0 >>, << >>), 1)}})
       \cup Or(fail, {Q(Out(st, IF x[1] = 1 THEN << 2, x[2] >> ELSE Panic, IF x[1] = 1 THEN << >> ELSE << x[2] >>), 1)})
  [] k = "makefail" -> {Q(Out(st, << 2 >>, << >>), 1)} (* a constructor that declares failure; or an allocator that does *)
  [] k = "collect" -> (* x = tokens *)
       (IF z THEN {Put(Out(st, << 0 >>, << >>), i, Vec(x, Inf))}
        ELSE {Q(Put(Out(st, << 0 >>, << >>), i, Vec(x, c)), -1) : c \in {c \in C \cup {0} : c >= Len(x)}})
       \cup Or(fail, {Q(Out(st, Panic, x), 1)})
  (* ---- one element in or out ---- *)
  [] k = "push" /\ a.k \in Linear -> Pushed(st, i, x[1], C, << 0 >>) \cup Or(fail, {Q(Out(st, Panic, x), 1)})
  [] k = "try_push" /\ a.k \in Linear -> Pushed(st, i, x[1], C, << 0 >>) \cup Or(fail, {Q(Out(st, << 2, x[1] >>, << >>), 1)})
  [] k = "try_push" /\ a.k = "bs" ->
       IF z \/ n < a.cap THEN {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.s = Append(@, x[1])])} ELSE Same(<< 2, x[1] >>)
  [] k = "pop" -> IF n = 0 THEN Same(<< 0 >>) ELSE {Put(Out(st, << 1, a.s[n] >>, << >>), i, [a EXCEPT !.s = Take(@, n - 1)])}
  [] k = "remove" -> IF x[1] >= n THEN Same(<< 0 >>) ELSE {Put(Out(st, << 1, a.s[x[1] + 1] >>, << >>), i, [a EXCEPT !.s = Del(@, x[1] + 1)])}
  [] k = "swap_remove" -> IF x[1] >= n THEN Same(<< 0 >>)
                          ELSE {Put(Out(st, << 1, a.s[x[1] + 1] >>, << >>), i, [a EXCEPT !.s = Take(Swp(@, x[1] + 1, n), n - 1)])}
  [] k = "swap" -> IF x[1] >= n \/ x[2] >= n THEN Same(Panic) ELSE {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.s = Swp(@, x[1] + 1, x[2] + 1)])}
  [] k = "get" -> LET s == Content(st, a) IN IF x[1] >= Len(s) THEN Same(Panic) ELSE Same(<< 1, s[x[1] + 1] >>)
  [] k = "range" -> (* indexing by a range *)
       LET s == Content(st, a) IN IF x[1] <= x[2] /\ x[2] <= Len(s) THEN Same(<< 1 >> \o SubSeq(s, x[1] + 1, x[2])) ELSE Same(Panic)
  [] k = "set" /\ a.k \in {"vec", "sov", "bs", "box"} -> (* assignment through a mutable slice *)
       IF x[1] >= n THEN {Out(st, Panic, << x[2] >>)}
       ELSE {Put(Out(st, << 0 >>, << a.s[x[1] + 1] >>), i, [a EXCEPT !.s[x[1] + 1] = x[2]])}
  [] k = "set" /\ a.k \in {"arc", "arc1"} -> (* only through a sole handle *)
       IF ~Unique(st, a) THEN Same(<< 2, x[2] >>)
       ELSE IF x[1] >= Len(st.ob[a.o].s) THEN {Out(st, Panic, << x[2] >>)}
       ELSE {[Out(st, << 0 >>, << st.ob[a.o].s[x[1] + 1] >>) EXCEPT !.ob[a.o].s[x[1] + 1] = x[2]]}
  (* ---- bulk ---- *)
  [] k = "truncate" ->
       LET b == IF a.m = << 1 >> /\ x[1] = 0 THEN [a EXCEPT !.s = << >>, !.cap = 0, !.m = << >>] ELSE [a EXCEPT !.s = Take(@, x[1])]
       IN IF x[1] >= n THEN Same(<< 0 >>) ELSE {Put(Out(st, IF ev.p = 1 THEN Panic ELSE << 0 >>, Skip(a.s, x[1])), i, b)}
  [] k \in {"reserve", "try_reserve"} ->
       (IF x[1] > 1000 /\ ~z THEN {} ELSE {Q(Put(Out(st, << 0 >>, << >>), i, b), IF a.m = << 1 >> THEN 1 ELSE Asked(z, a, x[1])) :
          b \in Grown(z, a, x[1], C) \cup {[a EXCEPT !.cap = c, !.m = << >>] : c \in {c \in C : a.m = << 1 >> /\ c >= n + x[1]}}})
       \cup Or(fail \/ (x[1] > 1000 /\ ~z), {Q(Out(st, IF k = "reserve" THEN Panic ELSE << 2 >>, << >>), 1)})
  [] k = "extend" -> (* x: the iterator's tokens; ev.p = 1: it panics after x[1..ev.n]; otherwise ev.n = Len(x) *)
       LET Some(m, r) == {Q(Put(Out(st, r, Skip(x, m)), i, [a EXCEPT !.s = @ \o Take(x, m), !.cap = c, !.m = mm]), -1) :
                            c \in {c \in C \cup {a.cap} : z \/ c >= n + m}, mm \in {a.m, << >>, << 1 >>}}
       IN {o \in (IF ev.p = 1 THEN Some(ev.n, Panic) ELSE Some(Len(x), << 0 >>)) \cup Or(fail, UNION {Some(m, Panic) : m \in 0..ev.n}) :
             LET b == o.sl[i] IN b.m = << 1 >> => (a.k = "sov" /\ ~z /\ Len(b.s) = 1 /\ b.cap = 1)}
  [] k = "clone" /\ a.k \in {"vec", "sov", "box"} -> (* slot j becomes a copy *)
       Or(ev.p = 0 /\ Clones(a.s, ev.c),
          {Q(Put(Out(st, << 0 >>, << >>), j, [a EXCEPT !.s = Tos(ev.c), !.cap = c]), IF z \/ n = 0 \/ a.m = << 1 >> THEN (IF a.k = "box" THEN 1 ELSE 0) ELSE 1) :
             c \in IF z THEN {Inf} ELSE IF n = 0 THEN {0} ELSE IF a.m = << 1 >> THEN {1} ELSE IF a.k = "box" THEN {0} ELSE {c \in C : c >= n}})
       \cup Or((ev.p = 1 \/ fail) /\ SomeClones(a.s, ev.c), {Q(Out(st, Panic, Tos(ev.c)), -1)})
  [] k = "make_mut" /\ a.k = "arc1" -> (* x[1] replaces the element, in place or in a fresh copy *)
       LET ob == st.ob[a.o]
       IN IF Unique(st, a) THEN Or(ev.c = << >>, {[Out(st, << 0 >>, ob.s) EXCEPT !.ob[a.o].s = x]})
          ELSE Or(ev.p = 0 /\ Clones(ob.s, ev.c),
                  LET o == DropStrong(Out(st, << 0 >>, << >>), a.o, st)
                  IN {Q([Put(o, i, [a EXCEPT !.o = Len(st.ob) + 1]) EXCEPT !.ob = Append(@, NewObj(x, 1)), !.d = @ \o Tos(ev.c)], 1)})
               \cup Or((ev.p = 1 \/ fail) /\ SomeClones(ob.s, ev.c), {Q(Out(st, Panic, Tos(ev.c) \o x), -1)})
  [] k = "cmp" -> LET p == Content(st, a)
                      q == Content(st, st.sl[j])
                      c == Cmp(st, p, q)
                  IN Same(<< IF c = 1 THEN 1 ELSE 0, c >>)
  (* ---- iterators and drains ---- *)
  [] k = "into" -> {Put(Out(st, << 0 >>, << >>), i, [None EXCEPT !.k = "into", !.m = a.s, !.cap = a.cap])}
  [] k \in {"drain", "try_drain"} -> (* x = <<from, to>> with to exclusive *)
       IF InRange(x[1], x[2]) THEN {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "drain", !.s = Take(a.s, x[1]), !.m = SubSeq(a.s, x[1] + 1, x[2]), !.t = Skip(a.s, x[2])])}
       ELSE Same(IF k = "drain" THEN Panic ELSE << 2 >>)
  [] k = "next" -> IF a.m = << >> THEN Same(<< 0 >>) ELSE {Put(Out(st, << 1, a.m[1] >>, << >>), i, [a EXCEPT !.m = Tail(@)])}
  [] k = "back" -> IF a.m = << >> THEN Same(<< 0 >>) ELSE {Put(Out(st, << 1, a.m[Len(a.m)] >>, << >>), i, [a EXCEPT !.m = Take(@, Len(@) - 1)])}
  [] k = "len" -> Same(<< Len(a.m) >>)
  [] k = "dd" -> {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "dd"])}
  [] k = "stop" -> {Put(Out(st, << 0 >>, << >>), i, Vec(a.s \o a.m \o a.t, a.cap))} (* keeps what was not drained *)
  [] k = "forget" -> {[Put(Out(st, << 0 >>, << >>), i, Vec(a.s, a.cap)) EXCEPT !.lost = a.m \o a.t]} (* documented to leak *)
  (* ---- conversions ---- *)
  [] k = "tobs" -> {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "bs"])}
  [] k = "tosov" -> {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "sov"])}
  [] k = "tovec" /\ a.k = "bs" -> {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "vec"])}
  [] k = "tovec" /\ a.k = "sov" ->
       IF a.m = << 1 >> THEN {Q(Put(Out(st, << 0 >>, << >>), i, Vec(a.s, c)), 1) : c \in {c \in C : c >= 1}} \cup Or(fail, {Q(Put(Out(st, Panic, a.s), i, None), 1)})
       ELSE {Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "vec"])}
  [] k = "toarc" /\ a.k = "vec" ->
       {Q([Put(Out(st, << 0 >>, << >>), i, [None EXCEPT !.k = "arc", !.o = Len(st.ob) + 1]) EXCEPT !.ob = Append(@, NewObj(a.s, a.cap))], IF z \/ a.cap = 0 THEN 1 ELSE 0)}
       \cup Or(fail, {Q(Put(Out(st, Panic, a.s), i, None), 1)})
  [] k = "toarc" /\ a.k = "arc1" -> {[Put(Out(st, << 0 >>, << >>), i, [a EXCEPT !.k = "arc"]) EXCEPT !.ob[a.o].cap = IF z THEN Inf ELSE 1]}
  [] k = "tovec" /\ a.k = "arc" ->
       LET ob == st.ob[a.o]
       IN IF z \/ ~Unique(st, a) THEN Same(<< 2 >>)
          ELSE {[Put(Out(st, << 0 >>, << >>), i, Vec(ob.s, ob.cap)) EXCEPT !.ob[a.o].sc = 0, !.ob[a.o].s = << >>]}
  [] k = "inner" /\ a.k = "box" -> {Put(Out(st, << 1, a.s[1] >>, << >>), i, None)}
  [] k = "inner" /\ a.k = "arc1" ->
       IF ~Unique(st, a) THEN Same(<< 2 >>)
       ELSE {[Put(Out(st, << 1, st.ob[a.o].s[1] >>, << >>), i, None) EXCEPT !.ob[a.o].sc = 0, !.ob[a.o].s = << >>]}
  [] k = "raw" -> Same(<< 0 >>) (* into_raw followed by from_raw *)
  (* ---- shared handles ---- *)
  [] k = "share" -> {[Put(Out(st, << 0 >>, << >>), j, a) EXCEPT !.ob[a.o].sc = @ + 1]}
  [] k = "downgrade" -> {[Put(Out(st, << 0 >>, << >>), j, [a EXCEPT !.k = IF a.k = "arc" THEN "weak" ELSE "weak1"]) EXCEPT !.ob[a.o].wc = @ + 1]}
  [] k = "wshare" -> {[Put(Out(st, << 0 >>, << >>), j, a) EXCEPT !.ob[a.o].wc = @ + 1]}
  [] k = "upgrade" -> IF st.ob[a.o].sc = 0 THEN Same(<< 0 >>)
                      ELSE {[Put(Out(st, << 1 >>, << >>), j, [a EXCEPT !.k = IF a.k = "weak" THEN "arc" ELSE "arc1"]) EXCEPT !.ob[a.o].sc = @ + 1]}
  [] k = "counts" -> Same(<< st.ob[a.o].sc, st.ob[a.o].wc + 1 >>)
  (* ---- destruction ---- *)
  [] k = "drop" -> LET o == DropOf(st, i) IN IF ev.p = 1 THEN {[o EXCEPT !.r = Panic]} ELSE {o}
  [] OTHER -> {}
(* What a panicking destructor may additionally cost: elements after it in the container and memory may leak, *)
(* but whatever is destroyed or remains visible is as without the panic.                                      *)
Lossy(o, ev) == ev.p = 1 /\ ev.k \in {"drop", "truncate"}
SubBag(a, b) == \A i \in DOMAIN a : Cnt(a, a[i]) <= Cnt(b, a[i])
(* -------- observation -------- *)
KindCode == [none |-> 0, vec |-> 1, sov |-> 2, bs |-> 3, arc |-> 4, box |-> 5, arc1 |-> 6, weak |-> 7, weak1 |-> 8, into |-> 9, drain |-> 10, dd |-> 11]
Proj(st, a) == IF a.k \in {"vec", "sov"} THEN << KindCode[a.k], a.cap >> \o a.s
               ELSE IF a.k \in {"bs", "arc", "box", "arc1"} THEN << KindCode[a.k], 0 >> \o Content(st, a)
               ELSE << KindCode[a.k], 0 >>
SeesAll(st, w) == \A i \in 1..NS : w[i] = Proj(st, st.sl[i])
(* the slot may have lost a suffix or its tail, but shows nothing else *)
SeesLossy(st, w, i) == \A h \in 1..NS : \/ w[h] = Proj(st, st.sl[h])
                                        \/ h = i /\ Len(w[h]) >= 2 /\ w[h][1] = KindCode[st.sl[h].k] /\ SubBag(Skip(w[h], 2), st.sl[h].s)
Caps(w) == {w[i][2] : i \in {i \in 1..NS : Len(w[i]) >= 2}}
(* memory blocks owned by what exists; an empty boxed slice or shared slice is free to own one or not *)
NeedsBlock(st, a) == CASE a.k \in {"vec", "drain", "dd", "into"} -> ~st.z /\ a.cap > 0
                       [] a.k = "sov" -> ~st.z /\ a.cap > 0 /\ a.m # << 1 >>
                       [] a.k = "bs" -> ~st.z /\ a.cap > 0
                       [] a.k = "box" -> TRUE
                       [] OTHER -> FALSE
Blocks(st) == Cardinality({i \in 1..NS : NeedsBlock(st, st.sl[i])}) + Cardinality({o \in DOMAIN st.ob : st.ob[o].sc + st.ob[o].wc > 0})
(* -------- conformance -------- *)
Apply(st, o) == [st EXCEPT !.sl = o.sl, !.ob = o.ob, !.lost = @ \o o.lost, !.lb = @ + o.lb]
Step(st, ev) ==
  IF ev.bad # << >> THEN [st EXCEPT !.err = ev.bad[1]]
  ELSE IF ev.k = "end"
  THEN IF \E i \in 1..NS : st.sl[i].k # "none" THEN [st EXCEPT !.err = "a container is left over"]
       ELSE IF ~SubBag(ev.a, st.lost) THEN [st EXCEPT !.err = "elements leaked"]
       ELSE IF ev.nb > st.lb THEN [st EXCEPT !.err = "memory leaked"]
       ELSE st
  ELSE LET s0 == [st EXCEPT !.val = @ \o ev.nv]
           os == Do(s0, ev, Caps(ev.w))
           good == {o \in os : ev.r = o.r /\ SeesAll(Apply(s0, o), ev.w)
                                 /\ (o.q = -1 \/ ev.f = 1 \/ ev.q <= o.q)
                                 /\ SameBag(ev.d, o.d) /\ LET b == Blocks(Apply(s0, o)) IN b <= ev.nb /\ ev.nb <= b + s0.lb}
           lossy == {o \in os : Lossy(o, ev) /\ ev.r = o.r /\ SubBag(ev.d, o.d) /\ SeesLossy(Apply(s0, o), ev.w, ev.s)}
       IN IF os = {} THEN [st EXCEPT !.err = "unknown event"]
          ELSE IF good # {} THEN LET o == CHOOSE o \in good : TRUE IN [Apply(s0, o) EXCEPT !.lb = IF Lossy(o, ev) THEN @ + 1 ELSE @]
          ELSE IF lossy # {} THEN LET o == CHOOSE o \in lossy : TRUE
                                      b == Apply(s0, o)
                                      seen == IF b.sl[ev.s].k = "none" THEN << >> ELSE Skip(ev.w[ev.s], 2)
                                  IN [b EXCEPT !.sl[ev.s].s = IF b.sl[ev.s].k = "none" THEN << >> ELSE seen, !.lost = @ \o o.d \o b.sl[ev.s].s, !.lb = @ + 1]
          ELSE [st EXCEPT !.err = IF \A o \in os : ev.r # o.r THEN "unexpected result"
                                  ELSE IF \A o \in os : ~SameBag(ev.d, o.d) THEN "unexpected destructions"
                                  ELSE IF \A o \in os : ~SeesAll(Apply(s0, o), ev.w) THEN "unexpected content"
                                  ELSE "unexpected memory use"]
============================================================================

------------------------------- MODULE ContMC -------------------------------
(* Explores Cont: whatever calls are made, and whatever fails or panics, every *)
(* token is in exactly one place: in one container, handed back to the caller, *)
(* destroyed, or documented as leaked.                                         *)
EXTENDS Cont
CONSTANTS Toks, KindsUsed, Fallible, Caps1
VARIABLES st, gone, left
vars == << st, gone, left >>
Init == st = Init0(FALSE) /\ gone = << >> /\ left = Toks
Ev(k, s, t, a) == [k |-> k, s |-> s, t |-> t, a |-> a, n |-> 0, c |-> << >>, f |-> 0, p |-> 0]
New == Len(st.val) + 1
K(i) == st.sl[i].k
Has(i, ks) == K(i) \in ks
Events ==
  LET S == 1..NS
      Free == {j \in S : K(j) = "none"}
      On(ks) == {i \in S : K(i) \in ks}
      One(k, ks) == {Ev(k, i, 0, << >>) : i \in On(ks)}
      To(k, ks) == {Ev(k, i, j, << >>) : i \in On(ks), j \in Free}
      Idx(k, ks) == {Ev(k, i, 0, << x >>) : i \in On(ks), x \in 0..2}
      Add(k, ks) == IF left > 0 THEN {Ev(k, i, 0, << New >>) : i \in On(ks)} ELSE {}
  IN UNION {
       {Ev("new", i, 0, << x >>) : i \in Free, x \in {"vec", "sov"}},
       {Ev("withcap", i, 0, << x, 2, f >>) : i \in Free, x \in {"vec", "sov"}, f \in 0..1},
       IF left > 0 THEN {Ev(k, i, 0, << f, New >>) : k \in {"newbox", "newarc"}, f \in 0..1, i \in Free} ELSE {},
       IF left > 1 THEN {Ev("collect", i, 0, << New, New + 1 >>) : i \in Free} ELSE {},
       IF left > 1 THEN {[Ev("extend", i, 0, << New, New + 1 >>) EXCEPT !.n = n, !.p = IF n = 2 THEN 0 ELSE 1] : i \in On(Linear), n \in 0..2} ELSE {},
       Add("push", Linear), Add("try_push", Linear \cup {"bs"}), Add("make_mut", {"arc1"}),
       IF left > 0 THEN {Ev("set", i, 0, << x, New >>) : x \in 0..1, i \in On({"vec", "sov", "bs", "arc"})} \cup {Ev("set", i, 0, << 0, New >>) : i \in On({"box", "arc1"})} ELSE {},
       Idx("remove", {"vec"}), Idx("swap_remove", {"vec"}), Idx("truncate", Linear), Idx("reserve", Linear), Idx("try_reserve", Linear),
       {Ev("swap", i, 0, << 0, x >>) : i \in On({"vec"}), x \in 0..2},
       {Ev(k, i, 0, << a, b >>) : k \in {"drain", "try_drain"}, i \in On({"vec"}), a \in 0..2, b \in 0..2},
       To("clone", {"vec", "sov", "box"}), To("share", {"arc", "arc1"}), To("downgrade", {"arc", "arc1"}), To("wshare", {"weak", "weak1"}), To("upgrade", {"weak", "weak1"}),
       One("pop", {"vec"}), One("into", {"vec"}), One("tobs", {"vec"}), One("tosov", {"vec"}), One("tovec", {"bs", "sov", "arc"}), One("toarc", {"vec", "arc1"}),
       One("inner", {"box", "arc1"}), One("next", {"into", "drain", "dd"}), One("back", {"dd"}), One("dd", {"drain"}), One("stop", {"drain"}), One("forget", {"drain", "dd"}),
       One("drop", {K(i) : i \in S} \ {"none"}) }
(* the injections an event may come with *)
CloneOf(ev) == IF ev.k = "clone" THEN st.sl[ev.s].s ELSE IF ev.k = "make_mut" THEN st.ob[st.sl[ev.s].o].s ELSE << >>
Variants(ev) ==
  LET src == CloneOf(ev)
      base == IF ev.k = "make_mut" THEN New ELSE New - 1
      cl(m) == [x \in 1..m |-> << src[x], base + x >>]
  IN IF ev.k \in {"clone", "make_mut"}
     THEN {ev, [ev EXCEPT !.c = cl(Len(src))]} \cup {[ev EXCEPT !.c = cl(m), !.p = 1] : m \in 0..Len(src)} \cup {[ev EXCEPT !.c = cl(m), !.f = f] : m \in 0..Len(src), f \in Fallible}
     ELSE {[ev EXCEPT !.f = f] : f \in {0} \cup Fallible}
Made(ev) == Len(ev.c) + (CASE ev.k \in {"push", "try_push", "make_mut", "set", "newbox", "newarc"} -> 1 [] ev.k \in {"collect", "extend"} -> 2 [] OTHER -> 0)
(* what the call handed back by value *)
Handed(ev, r) == IF \/ ev.k \in {"pop", "remove", "swap_remove", "next", "back", "inner"} /\ r[1] = 1
                    \/ ev.k \in {"try_push", "newbox", "newarc", "set"} /\ r[1] = 2
                 THEN << r[2] >> ELSE << >>
Next == \E ev0 \in Events : ev0.k \in KindsUsed /\ \E ev \in Variants(ev0) :
          LET m == Made(ev)
              s0 == [st EXCEPT !.val = @ \o [x \in 1..m |-> 0]]
          IN /\ m <= left
             /\ left' = left - m
             /\ \E o \in Do(s0, ev, Caps1) : st' = Apply(s0, o) /\ gone' = gone \o o.d \o Handed(ev, o.r)
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE s[1] \o Cat(Tail(s))
Places == gone \o st.lost \o Cat([i \in 1..NS |-> st.sl[i].s \o st.sl[i].m \o st.sl[i].t]) \o Cat([o \in DOMAIN st.ob |-> st.ob[o].s])
SovMark == \E i \in 1..NS : st.sl[i].k = "sov" /\ st.sl[i].m # << >>
Real == gone \o st.lost \o Cat([i \in 1..NS |-> st.sl[i].s \o (IF st.sl[i].k = "sov" THEN << >> ELSE st.sl[i].m) \o st.sl[i].t]) \o Cat([o \in DOMAIN st.ob |-> st.ob[o].s])
Conserved == SameBag(Real, [x \in 1..Len(st.val) |-> x])
(* the counts of a shared storage are those of its handles *)
Counted == \A o \in DOMAIN st.ob : /\ st.ob[o].sc = Cardinality({i \in 1..NS : K(i) \in {"arc", "arc1"} /\ st.sl[i].o = o})
                                   /\ st.ob[o].wc = Cardinality({i \in 1..NS : K(i) \in {"weak", "weak1"} /\ st.sl[i].o = o})
                                   /\ (st.ob[o].sc = 0 => st.ob[o].s = << >>)
Fits == \A i \in 1..NS : K(i) \in {"vec", "sov"} => st.sl[i].cap >= Len(st.sl[i].s)
Small == Len(st.ob) <= 2
(* gone only matters as a set *)
View == << st.sl, st.ob, {gone[x] : x \in DOMAIN gone}, {st.lost[x] : x \in DOMAIN st.lost}, Len(gone), Len(st.lost), left >>
=============================================================================

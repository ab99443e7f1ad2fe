------------------------------- MODULE BTree --------------------------------
(* The copy-on-write ordered sets and maps (ArcBTreeSet, ArcBTreeMap) as users *)
(* see them: a few snapshots, each a strictly increasing sequence of elements  *)
(* <<key, value, token>>. The token is the identity of the element; elements    *)
(* may be replaced by clones of themselves in the snapshot that is modified,    *)
(* and nowhere else.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NS

None == [k |-> "none", rep |-> 0, c |-> << >>]
(* cl: clones made since the snapshots were last looked at; dirty: snapshots   *)
(* modified since; leak: a clone panicked, so that elements may be lost.       *)
Init0 == [sl |-> [i \in 1..NS |-> None], cl |-> << >>, dirty |-> {}, leak |-> FALSE, err |-> ""]
Range(s) == {s[i] : i \in DOMAIN s}

(* Position of the first element whose key isn't less than key (Len + 1: none). *)
RECURSIVE Lower(_, _, _, _)
Lower(c, key, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF c[m][1] < key THEN Lower(c, key, m + 1, hi) ELSE Lower(c, key, lo, m)
At(c, key) == Lower(c, key, 1, Len(c) + 1)
Holds(c, key) == LET p == At(c, key) IN p <= Len(c) /\ c[p][1] = key
Find(c, key) == IF Holds(c, key) THEN <<c[At(c, key)]>> ELSE << >>
(* Insertion of element e: the content afterwards and what is handed back.      *)
Insert(c, rep, e) ==
  LET p == At(c, e[1]) IN
  IF ~Holds(c, e[1]) THEN [c |-> SubSeq(c, 1, p - 1) \o <<e>> \o SubSeq(c, p, Len(c)), r |-> << >>]
  ELSE IF rep = 0 THEN [c |-> c, r |-> <<e>>]
  ELSE [c |-> [c EXCEPT ![p] = e], r |-> <<c[p]>>]
Sorted(c) == \A i \in 1..Len(c) - 1 : c[i][1] < c[i + 1][1]

(* ---- observed events ---------------------------------------------------- *)
Fail(st, m) == [st EXCEPT !.err = m]
RECURSIVE From(_, _, _)
(* id x is id y, or a clone of a clone … of it *)
From(x, y, par) == x = y \/ (x \in DOMAIN par /\ From(par[x], y, par))
Parents(cl) == [t \in {cl[i][2] : i \in DOMAIN cl} |-> cl[CHOOSE i \in DOMAIN cl : cl[i][2] = t][1]]
SameElem(o, e, par) == o[1] = e[1] /\ o[2] = e[2] /\ From(o[3], e[3], par)
Matches(o, c, par) == Len(o) = Len(c) /\ \A i \in DOMAIN c : SameElem(o[i], c[i], par)

(* e.o: observed snapshots, each [s, c, len, empty]                            *)
Observe(st, e) ==
  IF Len(e.bad) > 0 THEN Fail(st, e.bad[1])
  ELSE IF e.o = << >> THEN st
  ELSE LET par == Parents(st.cl)
           X(i) == CHOOSE j \in DOMAIN e.o : e.o[j].s = i
           Seen == {i \in 1..NS : st.sl[i].k # "none"}
           Ok(i) == LET o == e.o[X(i)] IN
             /\ Matches(o.c, st.sl[i].c, IF i \in st.dirty THEN par ELSE << >>)
             /\ o.len \in {-1, Len(st.sl[i].c)}
             /\ o.empty = (IF st.sl[i].c = << >> THEN 1 ELSE 0)
           Ids == UNION {{e.o[j].c[n][3] : n \in DOMAIN e.o[j].c} : j \in DOMAIN e.o}
           Live == Range(e.live)
       IN IF {e.o[j].s : j \in DOMAIN e.o} # Seen THEN Fail(st, "other snapshots than expected")
          ELSE IF \E i \in Seen : ~Ok(i) THEN Fail(st, "a snapshot's content differs")
          ELSE IF ~(Ids \subseteq Live) THEN Fail(st, "a snapshot holds a destroyed element")
          ELSE IF ~st.leak /\ Live # Ids THEN Fail(st, "an element outlives every snapshot")
          ELSE IF ~st.leak /\ e.lk # Cardinality(UNION {{e.o[j].c[n][3] : n \in DOMAIN e.o[j].c} : j \in {j \in DOMAIN e.o : st.sl[e.o[j].s].k = "map"}}) THEN Fail(st, "keys destroyed too early or too late")
          ELSE [st EXCEPT !.sl = [i \in 1..NS |-> IF i \in Seen THEN [st.sl[i] EXCEPT !.c = e.o[X(i)].c] ELSE st.sl[i]],
                          !.cl = << >>, !.dirty = {}]

Act(st, e) ==
  LET x == IF e.s = 0 THEN None ELSE st.sl[e.s]
      more == [st EXCEPT !.cl = @ \o e.cl]
      par == Parents(more.cl)
  IN CASE e.k = "new" -> IF e.cl # << >> THEN Fail(st, "clones") ELSE [st EXCEPT !.sl[e.s] = [k |-> e.kind, rep |-> e.rep, c |-> << >>]]
       [] e.k = "insert" ->
            LET w == Insert(x.c, x.rep, <<e.key, e.val, e.id>>)
                Handed == IF w.r = << >> THEN e.r = <<0>>
                          ELSE e.r # <<0>> /\ e.r[1] = 1 /\ Len(e.r) = 4 /\ SameElem(SubSeq(e.r, 2, 4), w.r[1], par)
            IN IF e.r = <<-1>>
               THEN IF e.fuse = 0 THEN Fail(st, "panic") ELSE [more EXCEPT !.leak = TRUE, !.dirty = @ \cup {e.s}]
               ELSE IF ~Handed THEN Fail(st, "insert handed back something else")
               ELSE IF x.rep = 0 /\ w.r # << >>
                    THEN IF e.cl # << >> \/ e.r[4] # e.id THEN Fail(st, "an insertion without effect cloned elements") ELSE st
               ELSE [more EXCEPT !.sl[e.s].c = w.c, !.dirty = @ \cup {e.s}]
       [] e.k = "get" ->
            LET w == Find(x.c, e.key)
                Ok == IF w = << >> THEN e.r = <<0>> ELSE e.r[1] = 1 /\ Len(e.r) = 4 /\ SameElem(SubSeq(e.r, 2, 4), w[1], par)
            IN IF e.cl # << >> THEN Fail(st, "a lookup cloned elements") ELSE IF Ok THEN st ELSE Fail(st, "wrong lookup")
       [] e.k = "clone" -> IF e.cl # << >> THEN Fail(st, "taking a snapshot cloned elements")
                           ELSE [more EXCEPT !.sl[e.t] = x, !.dirty = IF e.s \in @ THEN @ \cup {e.t} ELSE @]
       [] e.k = "drop" -> IF e.cl # << >> THEN Fail(st, "clones") ELSE [st EXCEPT !.sl[e.s] = None, !.dirty = @ \ {e.s}]
       [] e.k = "end" -> IF st.leak THEN st
                         ELSE IF e.live # << >> \/ e.lk # 0 THEN Fail(st, "elements left")
                         ELSE IF e.blocks # << >> THEN Fail(st, "memory left") ELSE st
       [] OTHER -> Fail(st, "unknown event")
Step(st, e) == LET s2 == Act(st, e) IN IF s2.err # "" THEN s2 ELSE Observe(s2, e)
=============================================================================

-------------------------------- MODULE Cursor --------------------------------
(* An iterator over a sequence: what remains of it is a window of the sequence that  *)
(* shrinks from either end. Owning iterators ("into"), drains of a range ("drain",    *)
(* "dd" when double-ended), mutable iterators ("mut") and shared ones ("ref").        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* s: the sequence; lo, hi: the window s[lo+1..hi]; from, to: what it was at first; held: the ids handed out by value *)
Init0 == [kind |-> "", s |-> << >>, lo |-> 0, hi |-> 0, from |-> 0, to |-> 0, held |-> {}, err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
SeqSet(x) == {x[j] : j \in 1..Len(x)}
Min2(a, b) == IF a < b THEN a ELSE b
Owning(st) == st.kind \in {"into", "drain", "dd"}
Exact(st) == st.kind # "into"
Left(st) == SubSeq(st.s, st.lo + 1, st.hi)
Rev(x) == [j \in 1..Len(x) |-> x[Len(x) + 1 - j]]
Same(d, x) == Len(d) = Len(x) /\ SeqSet(d) = SeqSet(x)
(* what skipping these destroys *)
Skips(st, x) == IF Owning(st) THEN x ELSE << >>
Gives(st, r) == IF Owning(st) THEN st.held \cup SeqSet(r) ELSE st.held
(* st after handing out r, skipping x, and moving to lo, hi *)
Move(st, e, r, x, lo, hi) ==
  IF e.r # r THEN Fail(st, "another element is handed out")
  ELSE IF ~Same(e.d, Skips(st, x)) THEN Fail(st, "the skipped elements aren't destroyed once")
  ELSE [st EXCEPT !.lo = lo, !.hi = hi, !.held = Gives(st, r)]
(* n = -1: more than there can be *)
Jump(st, n) == IF n < 0 THEN Len(st.s) + 1 ELSE n
Act(st, e) ==
  LET w == Left(st)
      len == Len(w)
  IN
  CASE e.k = "make" -> [st EXCEPT !.kind = e.kind, !.s = e.s, !.lo = e.from, !.hi = e.to, !.from = e.from, !.to = e.to]
    [] e.k = "nth" -> LET n == Jump(st, e.n) IN
         IF n < len THEN Move(st, e, <<w[n + 1]>>, SubSeq(w, 1, n), st.lo + n + 1, st.hi)
         ELSE Move(st, e, << >>, w, st.hi, st.hi)
    [] e.k = "nthback" -> LET n == Jump(st, e.n) IN
         IF n < len THEN Move(st, e, <<w[len - n]>>, SubSeq(w, len - n + 1, len), st.lo, st.hi - n - 1)
         ELSE Move(st, e, << >>, w, st.lo, st.lo)
    [] e.k = "len" -> IF e.d = << >> /\ e.lower <= len /\ (e.upper = << >> \/ e.upper[1] >= len)
                         /\ (Exact(st) => e.lower = len /\ e.upper = <<len>>) /\ (e.len = << >> \/ e.len = <<len>>) THEN st
                      ELSE Fail(st, "the wrong number of elements is said to be left")
    [] e.k = "count" -> IF e.n = len /\ Same(e.d, Skips(st, w)) THEN [st EXCEPT !.lo = st.hi] ELSE Fail(st, "elements are miscounted")
    [] e.k = "last" -> IF len = 0 THEN Move(st, e, << >>, << >>, st.hi, st.hi) ELSE Move(st, e, <<w[len]>>, SubSeq(w, 1, len - 1), st.hi, st.hi)
    [] e.k = "all" -> Move(st, e, w, << >>, st.hi, st.hi)
    [] e.k = "rev" -> Move(st, e, Rev(w), << >>, st.lo, st.lo)
    [] e.k = "set" -> (* through a mutable reference handed out: e.a, still not returned, becomes e.b *)
         IF st.kind = "mut" /\ e.d = <<e.a>> THEN [st EXCEPT !.s = [j \in 1..Len(@) |-> IF @[j] = e.a THEN e.b ELSE @[j]]] ELSE Fail(st, "the replaced element isn't destroyed")
    [] e.k = "stop" -> (* the drain ends here: what is left of its range stays *)
         IF e.d # << >> THEN Fail(st, "a stopped drain destroys elements")
         ELSE [st EXCEPT !.to = st.lo, !.hi = st.lo]
    [] e.k = "dd" -> IF e.d # << >> THEN Fail(st, "something was destroyed") ELSE [st EXCEPT !.kind = "dd"]
    [] e.k = "end" -> (* the iterator is gone; after: what the sequence is then *)
         LET after == IF st.kind = "into" THEN << >> ELSE IF Owning(st) THEN SubSeq(st.s, 1, st.from) \o SubSeq(st.s, st.to + 1, Len(st.s)) ELSE st.s
         IN IF ~Same(e.d, Skips(st, w)) THEN Fail(st, "what is left of the range isn't destroyed once")
            ELSE IF e.after # after THEN Fail(st, "the sequence is another afterwards")
            ELSE [st EXCEPT !.s = after, !.lo = 0, !.hi = 0]
    [] e.k = "use" -> IF SeqSet(e.d) = st.held /\ Len(e.d) = Cardinality(st.held) THEN [st EXCEPT !.held = {}] ELSE Fail(st, "an element handed out isn't whole")
    [] e.k = "drop" -> IF Same(e.d, st.s) /\ e.left = 0 THEN [st EXCEPT !.s = << >>] ELSE Fail(st, "something is lost or left")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == IF e.bad # 0 THEN Fail(st, "memory misused") ELSE Act(st, e)
===============================================================================

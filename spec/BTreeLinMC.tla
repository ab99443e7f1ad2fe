----------------------------- MODULE BTreeLinMC -----------------------------
(* Explores BTreeLin: the edits done so far, in the order they took effect,     *)
(* explain the content (none is lost), and contents in use aren't destroyed.    *)
(* `Reuse` lets an edit be installed over a content that differs from what it   *)
(* read but lives at the same address (the mistake of a bare pointer exchange). *)
EXTENDS BTreeLin
CONSTANTS NT, Keys, Reuse, MaxOps
VARIABLES st, next, hist, n
vars == <<st, next, hist, n>>
T == 1..NT
Init == st = Init0 /\ next = 1 /\ hist = << >> /\ n = 0
NewIds(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], next + i - 1>>]
Begin == \E t \in T, k \in Keys : /\ st.pend[t].op = "" /\ n < MaxOps /\ n' = n + 1
            /\ \E op \in {"edit", "get", "clear"} :
                 st' = [st EXCEPT !.pend[t] = [NoOp EXCEPT !.op = op, !.a = IF op = "edit" THEN <<0, k, n>> ELSE <<k>>]]
            /\ UNCHANGED <<next, hist>>
Internal == \E t \in T : \E d \in Lin(st, t) :
            /\ st' = d /\ UNCHANGED <<next, n>>
            /\ hist' = IF d.pend[t].ph = 9 /\ st.pend[t].res # st.pend[t].arg THEN Append(hist, st.pend[t]) ELSE hist
(* the mistake *)
Confuse == Reuse /\ \E t \in T : /\ st.pend[t].ph = 3 /\ st.cell # st.pend[t].arg /\ st.cell # << >>
            /\ st' = [st EXCEPT !.cell = st.pend[t].res, !.pend[t].ph = 9]
            /\ hist' = Append(hist, st.pend[t]) /\ UNCHANGED <<next, n>>
Compute == \E t \in T : LET p == st.pend[t] IN
            \/ /\ p.ph = 1 /\ p.op # "get" /\ st' = [st EXCEPT !.pend[t].ph = 2] /\ UNCHANGED <<next, hist, n>>
            \/ /\ p.ph = 1 /\ p.op = "get" /\ st' = [st EXCEPT !.pend[t].ph = 9] /\ UNCHANGED <<next, hist, n>>
            \/ /\ p.ph = 2
               /\ LET x == Expected(p)
                      r == IF x = Plain(p.arg) THEN p.arg ELSE NewIds(x)
                  IN st' = [st EXCEPT !.pend[t].ph = 3, !.pend[t].res = r]
               /\ next' = next + 1 /\ UNCHANGED <<hist, n>>
Return == \E t \in T : st.pend[t].ph = 9 /\ st' = [st EXCEPT !.pend[t] = NoOp] /\ UNCHANGED <<next, hist, n>>
Next == Begin \/ Internal \/ Compute \/ Return \/ Confuse
RECURSIVE Replay(_, _)
Replay(h, s) == IF h = << >> THEN s
                ELSE Replay(Tail(h), CASE Head(h).op = "edit" -> Fold(s, 0, Tail(Head(h).a)) [] Head(h).op = "clear" -> << >> [] OTHER -> s)
NoneLost == Replay(hist, << >>) = Plain(st.cell)
Retries == n <= MaxOps /\ next < 8
=============================================================================

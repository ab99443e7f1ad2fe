------------------------------- MODULE ThreadsMC -------------------------------
(* Why: one value, what safe code may do to it through each kind of handle, and threads. *)
(* A handle is [at, kind, lent]: it is somewhere, may have been lent to another thread.   *)
(* A value that can't be sent mustn't be touched exclusively (changed, destroyed) but at   *)
(* home, one that can't be shared mustn't be reachable from two threads at once.           *)
EXTENDS Threads
CONSTANTS Mistake, MaxT, MaxH
Kinds == {"own", "ref", "mut", "shared", "cell"}
Leaf(a) == [t |-> "leaf", send |-> a[1], sync |-> a[2]]
Type(k, a) == IF k = "own" THEN [t |-> "own", l |-> <<Leaf(a)>>] ELSE [t |-> k, x |-> Leaf(a)]
T == 1..MaxT
(* a state: the handles, each with the threads it is lent to; a view's owner stays at home *)
H0(k) == {[n |-> 1, at |-> 1, kind |-> k, lent |-> {}]}
Owners == {"own", "shared", "cell"}
Fresh(hs) == IF Cardinality(hs) >= MaxH THEN {} ELSE {CHOOSE n \in 1..MaxH : \A h \in hs : h.n # n}
Moves(hs, t) == {(hs \ {h}) \cup {[h EXCEPT !.at = t]} : h \in {g \in hs : g.lent = {} /\ g.at # t}}
Lends(hs, t) == {(hs \ {h}) \cup {[h EXCEPT !.lent = @ \cup {t}]} : h \in {g \in hs : g.at # t}}
Sees(h) == {h.at} \cup h.lent
(* copying a reference, cloning an owner, loading from a cell: by whoever sees it *)
Copies(hs) == UNION {UNION {{hs \cup {[n |-> n, at |-> t, kind |-> IF h.kind = "cell" THEN "shared" ELSE h.kind, lent |-> {}]} : n \in Fresh(hs)} : t \in Sees(h)} : h \in {g \in hs : g.kind \in {"ref", "shared", "cell"}}}
Ends(hs) == {(hs \ {h}) \cup {[h EXCEPT !.lent = {}]} : h \in {g \in hs : g.lent # {}}} \cup {hs \ {h} : h \in {g \in hs : g.lent = {}}}
Readers(k, hs) == UNION {Sees(h) : h \in hs} \cup IF k = "ref" THEN {1} ELSE {}
(* who may touch it exclusively: the holder of an owner or mutable view that isn't lent, of the last owner *)
Exclusive(hs) == IF Cardinality(hs) # 1 THEN {} ELSE {h.at : h \in {g \in hs : g.lent = {} /\ g.kind # "ref"}}
Misuse(k, a, hs) == (a[1] = 0 /\ Exclusive(hs) \ {1} # {}) \/ (a[2] = 0 /\ Cardinality(Readers(k, hs)) > 1)
Succ(hs, move, lend) == UNION {(IF move THEN Moves(hs, t) ELSE {}) \cup (IF lend THEN Lends(hs, t) ELSE {}) : t \in T} \cup Copies(hs) \cup Ends(hs)
RECURSIVE Close(_, _, _)
Close(done, move, lend) == LET n == done \cup UNION {Succ(s, move, lend) : s \in done} IN IF n = done THEN done ELSE Close(n, move, lend)
Safe(k, a, move, lend) == \A s \in Close({H0(k)}, move, lend) : ~Misuse(k, a, s)
Attrs == {0, 1} \X {0, 1}
(* the rule is exact: what it refuses could be misused, by that alone *)
Exact == \A k \in Kinds, a \in Attrs : /\ Send(Type(k, a)) = Safe(k, a, TRUE, FALSE)
                                       /\ Sync(Type(k, a)) = Safe(k, a, FALSE, TRUE)
ASSUME Mistake # "none" \/ MaxT > 2 \/ Exact
MaySend(k, a) == CASE Mistake = "arcsend" /\ k = "shared" -> a[1] = 1
                   [] Mistake = "refsend" /\ k = "ref" -> a[1] = 1
                   [] Mistake = "always" /\ k = "own" -> TRUE
                   [] Mistake = "mixed" /\ k = "own" -> a[2] = 1
                   [] OTHER -> Send(Type(k, a))
MayShare(k, a) == CASE Mistake = "cell" /\ k = "cell" -> TRUE
                    [] Mistake = "arcsync" /\ k = "shared" -> a[2] = 1
                    [] OTHER -> Sync(Type(k, a))
VARIABLES k, a, hs
vars == <<k, a, hs>>
Init == k \in Kinds /\ a \in Attrs /\ hs = H0(k)
Next == hs' \in Succ(hs, MaySend(k, a), MayShare(k, a)) /\ UNCHANGED <<k, a>>
NoMisuse == ~Misuse(k, a, hs)
(* an object is used as what it promises, and hides what keeps it: no more can go wrong *)
Hidden == \A has \in SUBSET {"Send", "Sync"} : Keeps(Leaf(a), has) => \A kk \in Kinds :
            LET p == Promised(has) IN (Send(Type(kk, <<p.send, p.sync>>)) => Send(Type(kk, a))) /\ (Sync(Type(kk, <<p.send, p.sync>>)) => Sync(Type(kk, a)))
================================================================================

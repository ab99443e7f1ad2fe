------------------------------- MODULE TimeMC -------------------------------
(* The implementation's ways of storing times, against Time: durations as seconds *)
(* and nanoseconds with a carry, atomic ones packed in one integer (seconds       *)
(* shifted by 20 bits, plus microseconds, negated as a whole), threads            *)
(* interleaving at the accesses to that integer.                                  *)
EXTENDS Time
CONSTANTS Mistake,            \* "" or one of the mistakes below
          OpsPer              \* atomic operations per thread
VARIABLES w, reg, pc, tmp, left, st, steps
vars == <<w, reg, pc, tmp, left, st, steps>>
G == 1000000000
Shift == 1048576
Thr == {0, 1}
Secs == {0, 3}
Nanos == {0, 1999, 999999999, 1000000000}
Durs == {<<0, 0>>, <<3, 1999>>, <<1, 999999000>>}
Pack(d, neg) == LET t == d[1] * Shift + d[2] \div 1000 IN IF neg = 1 THEN -t ELSE t
(* A sign kept by negating the seconds alone would lose the sign of those below one. *)
PackM(d, neg) == IF Mistake = "signsecs" THEN (IF neg = 1 THEN -d[1] ELSE d[1]) * Shift + d[2] \div 1000 ELSE Pack(d, neg)
Unpack(x) == LET a == IF x < 0 THEN -x ELSE x IN <<IF x < 0 THEN 1 ELSE 0, a \div Shift, (a % Shift) * 1000>>
Nanosec(s, n) == Of(OfInt(s, 8), OfInt(n, 4))
Show(x) == LET u == Unpack(x) IN <<u[1]>> \o Nanosec(u[2], u[3])
Norm(s, n) == IF Mistake = "carry" THEN <<s, n>> ELSE <<s + n \div G, n % G>>
Ev(d, s, n) == [d |-> d, p |-> 0, secs |-> OfInt(s, 8), nanos |-> OfInt(n, 4), total |-> Nanosec(s, n), micros |-> n \div 1000, millis |-> n \div 1000000, std |-> 1]
Init == w = 0 /\ reg = [x \in 0..1 |-> <<0, 0>>] /\ pc = [t \in Thr |-> "idle"] /\ tmp = [t \in Thr |-> [new |-> 0, r |-> << >>, op |-> ""]]
        /\ left = [t \in Thr |-> OpsPer] /\ st = Init0
        /\ steps \in {0, 3}               \* plain times, or atomic ones
New == \E s \in Secs, n \in Nanos : \E d \in 0..1 : LET v == Norm(s, n) IN
         /\ reg' = [reg EXCEPT ![d] = v]
         /\ st' = Step(st, [k |-> "new", a |-> OfInt(s, 8), b |-> OfInt(n, 4)] @@ Ev(d, v[1], v[2]))
AddT == \E x \in 0..1, y \in 0..1 : LET v == Norm(reg[x][1] + reg[y][1], reg[x][2] + reg[y][2]) IN
         /\ reg[x][1] + reg[y][1] < 8
         /\ reg' = [reg EXCEPT ![x] = v]
         /\ st' = Step(st, [k |-> "add", x |-> x, y |-> y] @@ Ev(x, v[1], v[2]))
CmpT == LET c == IF reg[0] = reg[1] THEN 0 ELSE IF reg[0][1] < reg[1][1] \/ (reg[0][1] = reg[1][1] /\ reg[0][2] < reg[1][2]) THEN -1 ELSE 1 IN
         /\ st' = Step(st, [k |-> "cmp", x |-> 0, y |-> 1, ord |-> c, eq |-> IF c = 0 THEN 1 ELSE 0, h |-> IF c = 0 THEN 1 ELSE 0, lt |-> IF c < 0 THEN 1 ELSE 0])
         /\ UNCHANGED reg
Local == steps > 0 /\ steps' = steps - 1 /\ (New \/ AddT \/ CmpT) /\ UNCHANGED <<w, pc, tmp, left>>
Inv(t) == /\ pc[t] = "idle" /\ left[t] > 0
          /\ \E op \in {"load", "store", "swap"}, d \in Durs, neg \in 0..1 :
               /\ op = "load" => d = <<0, 0>> /\ neg = 0
               /\ st' = Step(st, [k |-> "inv", t |-> t, op |-> op, neg |-> neg, a |-> Nanosec(d[1], d[2])])
               /\ tmp' = [tmp EXCEPT ![t] = [new |-> PackM(d, neg), r |-> << >>, op |-> op]]
          /\ pc' = [pc EXCEPT ![t] = "go"] /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<w, reg>>
Go(t) == /\ pc[t] = "go"
         /\ CASE tmp[t].op = "load" -> w' = w /\ tmp' = [tmp EXCEPT ![t].r = Show(w)] /\ pc' = [pc EXCEPT ![t] = "ret"]
              [] tmp[t].op = "store" -> w' = tmp[t].new /\ tmp' = tmp /\ pc' = [pc EXCEPT ![t] = "ret"]
              [] OTHER -> /\ tmp' = [tmp EXCEPT ![t].r = Show(w), ![t].op = IF Mistake = "swap" THEN "store" ELSE @]
                          /\ IF Mistake = "swap" THEN w' = w /\ pc' = pc        \* loads, then stores
                             ELSE w' = tmp[t].new /\ pc' = [pc EXCEPT ![t] = "ret"]
         /\ UNCHANGED <<reg, left, st>>
Ret(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ st' = Step(st, [k |-> "ret", t |-> t, r |-> tmp[t].r])
          /\ tmp' = [tmp EXCEPT ![t] = [new |-> 0, r |-> << >>, op |-> ""]]
          /\ UNCHANGED <<w, reg, left>>
Next == st.err = "" /\ (Local \/ (steps = 0 /\ st.reg = Init0.reg /\ steps' = 0 /\ \E t \in Thr : Inv(t) \/ Go(t) \/ Ret(t)))
Conforms == st.err = ""
=============================================================================

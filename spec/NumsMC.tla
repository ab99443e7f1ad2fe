------------------------------- MODULE NumsMC -------------------------------
(* How numbers of W bits are kept in N bits (stabby-abi/src/num.rs): the spare   *)
(* bits repeat the sign (signed) or are zero, reading masks and extends, and     *)
(* equality, order and printing look at the bits as they are. Checked against    *)
(* the numbers they stand for, for every width and every short history.          *)
(* RawMin, ShortMax: what was found in the code. RawSub: differences that wrap.  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, RawMin, ShortMax, RawSub, RawAnd
VARIABLES s, w, raw, num, ok
vars == <<s, w, raw, num, ok>>
P(k) == 2 ^ k
RECURSIVE BAnd(_, _, _)
BAnd(x, y, k) == IF k = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * BAnd(x \div 2, y \div 2, k - 1)
And(x, y) == BAnd(x, y, N)
Or(x, y) == x + y - And(x, y)
(* bits of N positions as an integer 0..P(N)-1; Val: what they denote in the base *)
Val(x) == IF s = 1 /\ x >= P(N - 1) THEN x - P(N) ELSE x
Bits(v) == v % P(N)
(* ---- numbers ---- *)
Lo == IF s = 1 THEN -P(w - 1) ELSE 0
Hi == IF s = 1 THEN P(w - 1) - 1 ELSE P(w) - 1
Range == Lo..Hi
Wrap(v) == LET m == v % P(w) IN IF s = 1 /\ m >= P(w - 1) THEN m - P(w) ELSE m
(* ---- the representation ---- *)
Mask == P(w) - 1
Ext(x) == IF s = 1 /\ (x \div P(w - 1)) % 2 = 1 THEN Or(x, P(N) - P(w)) ELSE x
Get(x) == Val(Ext(And(x, Mask)))
ImplMin == IF s = 0 THEN 0 ELSE IF RawMin THEN P(w - 1) ELSE Bits(-P(w - 1))
ImplMax == IF s = 0 THEN Mask ELSE IF ShortMax THEN (P(N - 1) - 1) \div P(w) ELSE P(w - 1) - 1
Norm(x) == Ext(And(x, Mask))
Init == s \in {0, 1} /\ w \in 1..(N - 1) /\ raw = [r \in {0, 1} |-> 0] /\ num = [r \in {0, 1} |-> 0] /\ ok = TRUE
Put(r, x, v) == raw' = [raw EXCEPT ![r] = x] /\ num' = [num EXCEPT ![r] = v] /\ UNCHANGED <<s, w, ok>>
(* new: in range according to MIN and MAX as read *)
New == \E r \in {0, 1}, v \in -P(N - 1)..(P(N) - 1) :
         /\ v \in (IF s = 1 THEN -P(N - 1)..(P(N - 1) - 1) ELSE 0..(P(N) - 1))
         /\ LET accepts == IF s = 1 THEN v <= Get(ImplMax) /\ v >= Get(ImplMin) ELSE v <= Mask IN
            IF accepts # (v \in Range) THEN ok' = FALSE /\ UNCHANGED <<s, w, raw, num>>
            ELSE accepts /\ Put(r, Bits(v), v)
Const == \E r \in {0, 1} : Put(r, ImplMin, Lo) \/ Put(r, ImplMax, Hi)
AndSelf == \E r \in {0, 1} : Put(r, And(raw[0], raw[1]), Val(And(Bits(num[0]), Bits(num[1]))))
OrSelf == \E r \in {0, 1} : Put(r, Or(raw[0], raw[1]), Val(Or(Bits(num[0]), Bits(num[1]))))
AndBase == \E r \in {0, 1}, c \in 0..(P(N) - 1) :
             Put(r, IF RawAnd THEN And(raw[r], c) ELSE Norm(And(raw[r], c)), Wrap(And(Bits(num[r]), c)))
SubSelf == \E r \in {0, 1} : s = 0 /\ LET d == (Get(raw[0]) - Get(raw[1])) % P(N) IN
             Put(r, IF RawSub THEN d ELSE Norm(d), Wrap(num[0] - num[1]))
Next == New \/ Const \/ AndSelf \/ OrSelf \/ AndBase \/ SubSelf
Spec == Init /\ [][Next]_vars
Accepts == ok
InRange == \A r \in {0, 1} : num[r] \in Range
Reads == \A r \in {0, 1} : Get(raw[r]) = num[r]
Equal == (raw[0] = raw[1]) <=> (num[0] = num[1])
Order == (Val(raw[0]) < Val(raw[1])) <=> (num[0] < num[1])
Prints == \A r \in {0, 1} : Val(raw[r]) = num[r]
=============================================================================

-------------------------------- MODULE Big ---------------------------------
(* Numbers of any width, as little-endian sequences of bytes (TLC's own         *)
(* integers have 32 bits).                                                      *)
EXTENDS Integers, Sequences
Zeros(n) == [j \in 1..n |-> 0]
Bit(x, j) == (x[(j \div 8) + 1] \div (2 ^ (j % 8))) % 2
RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, j, c) == IF j > Len(x) THEN <<c>> ELSE <<(x[j] + y[j] + c) % 256>> \o AddFrom(x, y, j + 1, (x[j] + y[j] + c) \div 256)
(* Sum of two sequences of one length; its last element is the carry.           *)
Plus(x, y) == AddFrom(x, y, 1, 0)
Add(x, y) == SubSeq(Plus(x, y), 1, Len(x))
Carry(x, y) == Plus(x, y)[Len(x) + 1]
Not(x) == [j \in DOMAIN x |-> 255 - x[j]]
One(n) == [j \in 1..n |-> IF j = 1 THEN 1 ELSE 0]
Neg(x) == Add(Not(x), One(Len(x)))
Sub(x, y) == Add(x, Neg(y))
Less(x, y) == \E j \in DOMAIN x : x[j] < y[j] /\ \A k \in (j + 1)..Len(x) : x[k] = y[k]
Negative(x) == x[Len(x)] >= 128
SLess(x, y) == IF Negative(x) # Negative(y) THEN Negative(x) ELSE Less(x, y)
Cmp(s, x, y) == IF x = y THEN 0 ELSE IF (IF s = 1 THEN SLess(x, y) ELSE Less(x, y)) THEN -1 ELSE 1
RECURSIVE ByteAnd(_, _, _)
ByteAnd(x, y, k) == IF k = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * ByteAnd(x \div 2, y \div 2, k - 1)
And(x, y) == [j \in DOMAIN x |-> ByteAnd(x[j], y[j], 8)]
Or(x, y) == [j \in DOMAIN x |-> x[j] + y[j] - ByteAnd(x[j], y[j], 8)]
(* x * m + d, for a small m                                                     *)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(x, m, j, c) == IF j > Len(x) THEN << >> ELSE <<(x[j] * m + c) % 256>> \o MulFrom(x, m, j + 1, (x[j] * m + c) \div 256)
MulAdd(x, m, d) == MulFrom(x, m, 1, d)
(* What a sequence of digits, most significant first, denotes.                  *)
RECURSIVE Digits(_, _, _, _)
Digits(ds, base, n, acc) == IF ds = << >> THEN acc ELSE Digits(Tail(ds), base, n, MulAdd(acc, base, Head(ds)))
OfDigits(ds, base, n) == Digits(ds, base, n, Zeros(n))
(* Small numbers. *)
RECURSIVE OfInt(_, _)
OfInt(v, n) == IF n = 0 THEN << >> ELSE <<v % 256>> \o OfInt(v \div 256, n - 1)
RECURSIVE ToInt(_)
ToInt(x) == IF x = << >> THEN 0 ELSE x[1] + 256 * ToInt(Tail(x))
=============================================================================

-------------------------------- MODULE BitsMC ---------------------------------
(* How it is done: every operation is a recursion over the digits, from the least    *)
(* significant on, that carries one bit along; results that may have leading zeros     *)
(* are simplified. Explored for all pairs of numbers of up to N digits.                *)
EXTENDS Bits
CONSTANTS Mistake, N
VARIABLES a, b
Lists == UNION {[1..n -> {0, 1}] : n \in 0..N}
Canon(x) == x = << >> \/ x[1] = 1
Init == a \in {x \in Lists : Canon(x)} /\ b \in {x \in Lists : Canon(x)}
Next == UNCHANGED <<a, b>>
Msb(x) == IF x = << >> THEN << >> ELSE SubSeq(x, 1, Len(x) - 1)
Bit(x) == IF x = << >> THEN 0 ELSE x[Len(x)]
RECURSIVE IsTerm(_)
IsTerm(x) == IF x = << >> THEN TRUE ELSE Bit(x) = 0 /\ IsTerm(Msb(x))
RECURSIVE Simp(_)
Simp(x) == IF x = << >> THEN x ELSE IF IsTerm(x) THEN << >> ELSE Append(Simp(Msb(x)), Bit(x))
Simplified(x) == IF Mistake = "zeros" THEN x ELSE Simp(x)
And1(x, y) == B(x = 1 /\ y = 1)
Or1(x, y) == B(x = 1 \/ y = 1)
Xor1(x, y) == Or1(And1(x, 1 - y), And1(y, 1 - x))
Sum1(x, y, c) == Xor1(Xor1(x, y), c)
Carry1(x, y, c) == Or1(And1(y, c), And1(x, Xor1(y, c)))
Borrow1(x, y, c) == IF Mistake = "borrow" THEN And1(1 - x, Or1(y, c)) ELSE Or1(And1(1 - x, Or1(y, c)), And1(x, And1(y, c)))
RECURSIVE Add(_, _, _)
Add(x, y, c) == IF x = << >> THEN (IF c = 1 THEN (IF y = << >> THEN <<1>> ELSE Add(y, << >>, 1)) ELSE y)
                ELSE Append(Add(Msb(x), Msb(y), IF Mistake = "lost" THEN And1(Bit(x), Bit(y)) ELSE Carry1(Bit(x), Bit(y), c)), Sum1(Bit(x), Bit(y), c))
Inc(x) == IF x = << >> THEN <<1>> ELSE Add(x, << >>, 1)
RECURSIVE Sub(_, _, _)
Sub(x, y, c) == IF x = << >> THEN << >> ELSE Append(Sub(Msb(x), Msb(y), Borrow1(Bit(x), Bit(y), c)), Sum1(Bit(x), Bit(y), c))
RECURSIVE Gt(_, _, _)
Gt(x, y, h) == IF x = << >> THEN h = 1 /\ IsTerm(y)
               ELSE Gt(Msb(x), Msb(y), IF Mistake = "hint" THEN And1(Bit(x), 1 - Bit(y)) ELSE IF Bit(y) = 1 THEN And1(h, Bit(x)) ELSE Or1(h, Bit(x)))
RECURSIVE Eq(_, _)
Eq(x, y) == IF x = << >> THEN IsTerm(y) ELSE Bit(x) = Bit(y) /\ Eq(Msb(x), Msb(y))
AbsSub(x, y) == Simplified(IF Gt(x, y, 0) THEN Sub(x, y, 0) ELSE Sub(y, x, 0))
RECURSIVE AndI(_, _)
AndI(x, y) == IF x = << >> THEN << >> ELSE Append(AndI(Msb(x), Msb(y)), And1(Bit(x), Bit(y)))
RECURSIVE OrI(_, _)
OrI(x, y) == IF x = << >> THEN y ELSE Append(OrI(Msb(x), Msb(y)), Or1(Bit(x), Bit(y)))
RECURSIVE Mul(_, _)
Mul(x, y) == IF x = << >> THEN << >> ELSE Add(IF Bit(x) = 1 THEN y ELSE << >>, Simplified(Append(Mul(Msb(x), y), 0)), 0)
RECURSIVE SatDec(_)
SatDec(x) == IF x = << >> THEN << >> ELSE Simplified(IF Bit(x) = 1 THEN Append(Msb(x), 0) ELSE Append(SatDec(Msb(x)), 1))
RECURSIVE TruncI(_, _)
TruncI(x, y) == IF x = << >> THEN << >> ELSE IF IsTerm(y) THEN << >> ELSE Append(TruncI(Msb(x), AbsSub(y, <<1>>)), Bit(x))
RECURSIVE Lowest(_)
Lowest(x) == IF Bit(x) = 1 THEN <<1>> ELSE Append(Lowest(Msb(x)), 0)
RECURSIVE NBits(_)
NBits(x) == IF x = << >> THEN << >> ELSE Add(NBits(Msb(x)), IF IsTerm(x) THEN << >> ELSE <<1>>, 0)
(* by a power of two p *)
RECURSIVE ModI(_, _)
ModI(p, x) == IF p = <<1>> THEN << >> ELSE Simplified(Append(ModI(Msb(p), Msb(x)), Bit(x)))
RECURSIVE Div(_, _)
Div(p, x) == IF p = <<1>> THEN x ELSE Div(Msb(p), Msb(x))
RECURSIVE Log(_)
Log(p) == IF p = <<1>> THEN << >> ELSE Inc(Log(Msb(p)))
Up(x, p) == LET m == ModI(p, x) IN IF Eq(m, << >>) /\ Mistake # "up" THEN x ELSE Add(x, AbsSub(p, m), 0)
IsPow(p) == p # << >> /\ p[1] = 1 /\ \A j \in 2..Len(p) : p[j] = 0
Is(t, k, r) == Step(Init0, [t |-> t, k |-> k, a |-> a, b |-> b, r |-> r, n |-> ValOf(a)]).err = ""
Conforms ==
  /\ Is("num", "and", Simplified(AndI(a, b))) /\ Is("num", "or", Simplified(OrI(a, b))) /\ Is("num", "add", Add(a, b, 0)) /\ Is("num", "sub", AbsSub(a, b))
  /\ Is("num", "mul", Mul(a, b)) /\ Is("num", "min", IF Gt(a, b, 0) THEN b ELSE a) /\ Is("num", "max", IF Gt(a, b, 0) THEN a ELSE b)
  /\ Is("num", "trunc", Simplified(TruncI(a, b)))
  /\ Is("num", "inc", Inc(a)) /\ Is("num", "satdec", SatDec(a)) /\ Is("num", "bits", NBits(a))
  /\ (a # << >> => Is("num", "lowest", Lowest(a)))
  /\ (IsPow(b) => Is("num", "mod", ModI(b, a)) /\ Is("num", "divide", Div(b, a)) /\ Is("num", "up", Up(a, b)))
  /\ (IsPow(a) => Is("num", "log2", Log(a)))
  /\ Is("truth", "gt", B(Gt(a, b, 0))) /\ Is("truth", "eq", B(Eq(a, b))) /\ Is("truth", "ge", B(Gt(a, b, 0) \/ Eq(a, b)))
  /\ Is("truth", "le", B(~Gt(a, b, 0))) /\ Is("truth", "lt", B(~(Gt(a, b, 0) \/ Eq(a, b))))
================================================================================

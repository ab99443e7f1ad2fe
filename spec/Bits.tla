--------------------------------- MODULE Bits ---------------------------------
(* Numbers and truth values of the type level: what each operation on them must give.  *)
(* A number is its digits, most significant first, without leading zeros; 0 has none.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE ValOf(_)
ValOf(d) == IF d = << >> THEN 0 ELSE 2 * ValOf(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN << >> ELSE Append(DigitsOf(n \div 2), n % 2)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a > b THEN b ELSE a
Dist(a, b) == IF a > b THEN a - b ELSE b - a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE 2 * BitAnd(a \div 2, b \div 2) + (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0)
RECURSIVE BitOr(_, _)
BitOr(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE 2 * BitOr(a \div 2, b \div 2) + (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0)
RECURSIVE LowestOne(_)
LowestOne(a) == IF a % 2 = 1 THEN 1 ELSE 2 * LowestOne(a \div 2)
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
B(x) == IF x THEN 1 ELSE 0
(* numbers from two numbers (b is a power of 2 for the last four) *)
Num(k, a, b) ==
  CASE k = "and" -> BitAnd(a, b) [] k = "or" -> BitOr(a, b) [] k = "add" -> a + b [] k = "sub" -> Dist(a, b) [] k = "mul" -> a * b
    [] k = "min" -> Min2(a, b) [] k = "max" -> Max2(a, b)
    [] k = "trunc" -> IF b >= 30 THEN a ELSE a % Pow2(b)
    [] k = "mod" -> a % b [] k = "divide" -> a \div b [] k = "up" -> ((a + b - 1) \div b) * b
    [] k = "pmin" -> Min2(a, b) [] k = "pmax" -> Max2(a, b)
(* numbers from one *)
One(k, a) ==
  CASE k = "self" -> a [] k = "inc" -> a + 1 [] k = "dec" -> a - 1 [] k = "satdec" -> Max2(a, 1) - 1 [] k = "lowest" -> LowestOne(a) [] k = "log2" -> Log2(a)
    [] k = "bits" -> Len(DigitsOf(a)) [] k = "simple" -> a
Truth(k, a, b) == B(CASE k = "eq" -> a = b [] k = "ne" -> a # b [] k = "gt" -> a > b [] k = "ge" -> a >= b [] k = "lt" -> a < b [] k = "le" -> a <= b)
Xor(a, b) == B(a # b)
(* truth values from up to three *)
Logic(k, a, b, c) ==
  CASE k = "and" -> B(a = 1 /\ b = 1) [] k = "or" -> B(a = 1 \/ b = 1) [] k = "not" -> 1 - a [] k = "nand" -> 1 - B(a = 1 /\ b = 1) [] k = "xor" -> Xor(a, b)
    [] k = "equals" -> B(a = b) [] k = "sum" -> (a + b + c) % 2 [] k = "carry" -> (a + b + c) \div 2
    [] k = "diff" -> (a + b + c) % 2 [] k = "borrow" -> B(a < b + c) [] k = "ternary" -> IF a = 1 THEN b ELSE c
Unary == {"self", "inc", "dec", "satdec", "lowest", "log2", "bits", "simple"}
Truths == {"eq", "ne", "gt", "ge", "lt", "le"}
(* Masks list offsets and the unused bits of the byte there; sets of forbidden values list  *)
(* alternatives: bytes that are all there ("all") or a range of values of one byte.          *)
ByteAt(m, o) == IF \E j \in 1..Len(m) : m[j][1] = o THEN m[CHOOSE j \in 1..Len(m) : m[j][1] = o][2] ELSE 0
MaskOp(e) == e.r = [j \in 1..9 |-> LET o == j - 1 IN
  CASE e.k = "self" -> ByteAt(e.m, o) [] e.k = "and" -> BitAnd(ByteAt(e.m, o), ByteAt(e.n, o)) [] e.k = "or" -> BitOr(ByteAt(e.m, o), ByteAt(e.n, o))
    [] e.k = "shift" -> ByteAt(e.m, o - e.n[1][1]) [] e.k = "free" -> B(ByteAt(e.m, o) = 255)]
Holds(a, b, by) == IF a.k = "all" THEN \A j \in 1..Len(a.l) : b[a.l[j][1] + by + 1] = a.l[j][2]
                   ELSE b[a.l[1][1] + by + 1] \in a.l[1][2]..a.l[2][2]
Free(m, a) == \A j \in 1..Len(a.l) : ByteAt(m, a.l[j][1]) = 255
OneOf(a, r) == IF a.k = "all" THEN {r[j] : j \in 1..Len(r)} = {a.l[j] : j \in 1..Len(a.l)} /\ Len(r) = Len(a.l)
               ELSE Len(r) = 1 /\ r[1][1] = a.l[1][1] /\ r[1][2] \in a.l[1][2]..a.l[2][2]
(* e.a, e.b: digits; e.r: the digits of the type that results *)
Act(e) ==
  CASE e.t = "num" -> IF e.k \in Unary THEN e.r = DigitsOf(One(e.k, ValOf(e.a))) ELSE e.r = DigitsOf(Num(e.k, ValOf(e.a), ValOf(e.b)))
    [] e.t = "truth" -> e.r = Truth(e.k, ValOf(e.a), ValOf(e.b))
    [] e.t = "cmp" -> e.r = (IF ValOf(e.a) = ValOf(e.b) THEN "equal" ELSE IF ValOf(e.a) > ValOf(e.b) THEN "greater" ELSE "lesser")
    [] e.t = "logic" -> e.r = Logic(e.k, e.a, e.b, e.c)
    (* constants: as u128, u64, u32, usize, then cut to u16 and u8 *)
    [] e.t = "consts" -> LET n == ValOf(e.a) IN e.r = <<n, n, n, n, n % 65536, n % 256>>
    (* an array of a: its size and alignment for elements of size e.s and alignment e.al *)
    [] e.t = "array" -> LET n == ValOf(e.a) IN e.r = <<n * e.s, IF n = 0 THEN 1 ELSE e.al>> /\ e.d = e.r
    (* a padding of a bytes: its size and alignment, declared as well, and which of its bytes are unused *)
    [] e.t = "padding" -> LET n == ValOf(e.a) IN e.r = <<n, 1>> /\ e.d = e.r /\ e.u = [j \in 1..n |-> 255] /\ e.m = e.u
    [] e.t = "mask" -> MaskOp(e)
    [] e.t = "extract" -> (* some single bit of the mask, which is then no longer in it *)
         LET byte == ByteAt(e.m, e.o) IN
         /\ e.b \in {Pow2(j) : j \in 0..7} /\ BitAnd(byte, e.b) = e.b
         /\ e.r = [j \in 1..9 |-> IF j - 1 = e.o THEN byte - e.b ELSE ByteAt(e.m, j - 1)]
    [] e.t = "select" -> LET fits == {j \in 1..Len(e.f) : Free(e.m, e.f[j])} IN
                         IF fits = {} THEN e.r = << >> ELSE \E j \in fits : OneOf(e.f[j], e.r)
    [] e.t = "selectone" -> IF e.f = << >> THEN e.r = << >> ELSE e.r = << >> \/ \E j \in 1..Len(e.f) : OneOf(e.f[j], e.r)
    [] e.t = "invalid" -> e.r = B(\E j \in 1..Len(e.f) : Holds(e.f[j], e.b, e.by))
    [] OTHER -> FALSE
(* the name of an alias, U12, is the value *)
Init0 == [err |-> ""]
Step(st, e) == IF Act(e) /\ (e.t = "num" /\ e.k = "self" => ValOf(e.r) = e.n) THEN st ELSE [st EXCEPT !.err = "another result"]
===============================================================================

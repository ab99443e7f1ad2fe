-------------------------------- MODULE Nums --------------------------------
(* Integers of a restricted range. A type is: signed or not (s), stored in n    *)
(* bytes, and                                                                   *)
(*   "mask": the integers of w bits,                                            *)
(*   "not":  every integer of n bytes but f.                                    *)
(* A register holds a number of the type; what is done with it is done with the *)
(* number, however it is represented.                                           *)
EXTENDS Big, TLC
None == << >>
Init0 == [ty |-> [kind |-> "", s |-> 0, n |-> 1, w |-> 0, f |-> << >>], reg |-> [x \in 0..2 |-> None], err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Extend(T, v) == \A j \in T.w..(8 * T.n - 1) : Bit(v, j) = IF T.s = 1 THEN Bit(v, T.w - 1) ELSE 0
InRange(T, v) == IF T.kind = "mask" THEN Extend(T, v) ELSE v # T.f
(* The number of T whose w lowest bits are those of v.                          *)
Byte(T, v, j) ==
  LET b(k) == IF k < T.w THEN Bit(v, k) ELSE IF T.s = 1 THEN Bit(v, T.w - 1) ELSE 0
      o == 8 * (j - 1)
  IN b(o) + 2 * b(o+1) + 4 * b(o+2) + 8 * b(o+3) + 16 * b(o+4) + 32 * b(o+5) + 64 * b(o+6) + 128 * b(o+7)
Reduce(T, v) == [j \in 1..T.n |-> Byte(T, v, j)]
Min(T) == Reduce(T, [j \in 1..T.n |-> IF T.s = 1 /\ j = ((T.w - 1) \div 8) + 1 THEN 2 ^ ((T.w - 1) % 8) ELSE 0])
Max(T) == IF T.s = 1 THEN Not(Min(T)) ELSE Reduce(T, [j \in 1..T.n |-> 255])
Const(T, c) == CASE c = "MIN" -> Min(T) [] c = "MAX" -> Max(T) [] OTHER -> Zeros(T.n)
(* The exact difference is in the type's range. *)
SubFits(T, a, b) == ~Less(a, b)
(* small types, as integers *)
Val(T, v) == IF T.s = 1 /\ v >= 2 ^ (8 * T.n - 1) THEN v - 2 ^ (8 * T.n) ELSE v
Small(T, v) == CASE T.kind = "not" -> v # ToInt(T.f)
                 [] T.s = 1 -> Val(T, v) \in -(2 ^ (T.w - 1))..(2 ^ (T.w - 1) - 1)
                 [] OTHER -> v < 2 ^ T.w
Sgn(a, b) == IF a < b THEN 0 ELSE IF a = b THEN 1 ELSE 2
RECURSIVE StripEnd(_)
StripEnd(d) == IF Len(d) <= 1 \/ d[Len(d)] # 0 THEN d ELSE StripEnd(SubSeq(d, 1, Len(d) - 1))
(* A printed number: sign and digits, with no digit too many. *)
Canonical(ds) == ds # << >> /\ (Head(ds) # 0 \/ Len(ds) = 1)
Printed(T, v, e) ==
  LET m == IF T.s = 1 /\ Negative(v) THEN Neg(v) ELSE v IN
  /\ e.neg = (IF T.s = 1 /\ Negative(v) THEN 1 ELSE 0)
  /\ Canonical(e.dec) /\ OfDigits(e.dec, 10, T.n) = m
  /\ Canonical(e.hex) /\ OfDigits(e.hex, 16, T.n) = v /\ e.upper = e.hex
  /\ Canonical(e.oct) /\ OfDigits(e.oct, 8, T.n) = v
  /\ Canonical(e.bin) /\ OfDigits(e.bin, 2, T.n) = v
  /\ e.mant = StripEnd(e.dec) /\ e.exp = Len(e.dec) - 1
  /\ e.dbg = 1
Set(st, e, v) == [st EXCEPT !.reg[e.d] = v]
Step(st, e) ==
  LET T == st.ty IN
  CASE e.k = "type" -> [st EXCEPT !.ty = [kind |-> e.kind, s |-> e.s, n |-> e.n, w |-> e.w, f |-> e.f]]
    [] e.k = "new" ->
         IF e.r = (IF InRange(T, e.v) THEN <<1>> \o e.v ELSE <<0>>)
         THEN (IF e.r[1] = 1 THEN Set(st, e, e.v) ELSE st) ELSE Fail(st, "construction")
    [] e.k = "const" -> IF e.r = Const(T, e.c) THEN Set(st, e, e.r) ELSE Fail(st, "constant")
    [] e.k = "get" -> IF e.r = st.reg[e.x] THEN st ELSE Fail(st, "the number read back")
    [] e.k = "op" ->
         LET a == st.reg[e.x]
             b == IF e.b # << >> THEN e.b ELSE st.reg[e.y]
             z == CASE e.o = "and" -> Reduce(T, And(a, b))
                    [] e.o = "or" -> Or(a, b)
                    [] e.o = "add" -> Add(a, b)
                    [] e.o = "sub" -> Sub(a, b)
         IN (* a difference that isn't in the range may be refused, or wrap within it *)
            IF e.o = "sub" /\ ~SubFits(T, a, b) /\ e.r = <<-1>> THEN st
            ELSE IF e.o = "sub" /\ ~SubFits(T, a, b) THEN (IF e.r = Reduce(T, z) THEN Set(st, e, e.r) ELSE Fail(st, "a difference"))
            ELSE IF e.r # z THEN Fail(st, "an operation's result")
            ELSE IF e.d < 0 THEN st
            ELSE IF InRange(T, z) THEN Set(st, e, z) ELSE Fail(st, "a result out of range")
    [] e.k = "cmp" ->
         LET c == Cmp(T.s, st.reg[e.x], st.reg[e.y]) IN
         IF e.ord = c /\ e.eq = (IF c = 0 THEN 1 ELSE 0) /\ (c = 0 => e.h = 1)
            /\ e.lt = (IF c < 0 THEN 1 ELSE 0) /\ e.ge = (IF c >= 0 THEN 1 ELSE 0)
            /\ e.max = (IF c <= 0 THEN st.reg[e.y] ELSE st.reg[e.x]) /\ e.min = (IF c <= 0 THEN st.reg[e.x] ELSE st.reg[e.y])
         THEN st ELSE Fail(st, "a comparison")
    [] e.k = "fmt" -> IF Printed(T, st.reg[e.x], e) THEN st ELSE Fail(st, "a printed number")
    (* every value of a small type: which ones are accepted and read back *)
    [] e.k = "all" -> IF \A j \in DOMAIN e.runs : \A v \in e.runs[j][1]..e.runs[j][2] : e.runs[j][3] = (IF Small(T, v) THEN 1 ELSE 0)
                         /\ e.runs[1][1] = 0 /\ e.runs[Len(e.runs)][2] = 2 ^ (8 * T.n) - 1
                         /\ \A k \in DOMAIN e.runs : k > 1 => e.runs[k][1] = e.runs[k - 1][2] + 1
                      THEN st ELSE Fail(st, "the values accepted")
    (* one value against all the others: order, equality, equal hashes *)
    [] e.k = "row" -> IF \A j \in DOMAIN e.runs : \A v \in e.runs[j][1]..e.runs[j][2] :
                           e.runs[j][3] = (IF ~Small(T, v) THEN -1 ELSE LET c == Sgn(Val(T, e.a), Val(T, v)) IN c + (IF c = 1 THEN 12 ELSE 0))
                      THEN st ELSE Fail(st, "comparisons of one value with all others")
    [] OTHER -> Fail(st, "unknown event")
=============================================================================

-------------------------------- MODULE Serial ---------------------------------
(* Values and what they are written as: the stable types are written exactly as their  *)
(* standard counterparts, and read from whatever those can be read from.                 *)
(* Values  [t: "text", c], ["list", l], ["opt", l], ["res", ok, x], ["num", x], ["tok", x]  *)
(* Trees   [t: "str", c], ["seq", l], ["none"], ["some", x], ["variant", n, x], ["int", x],  *)
(*         ["bytes", c], ["fail"] (the source fails there)                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Tree(_)
Tree(v) ==
  CASE v.t = "text" -> [t |-> "str", c |-> v.c]
    [] v.t = "list" -> [t |-> "seq", l |-> [j \in 1..Len(v.l) |-> Tree(v.l[j])]]
    [] v.t = "opt" -> IF v.l = << >> THEN [t |-> "none"] ELSE [t |-> "some", x |-> Tree(v.l[1])]
    [] v.t = "res" -> [t |-> "variant", n |-> IF v.ok = 1 THEN "Ok" ELSE "Err", x |-> Tree(v.x)]
    [] v.t \in {"num", "tok"} -> [t |-> "int", x |-> v.x]
Bad == [t |-> "bad"]
(* Types  [t: "text"], ["ref"] (borrows), ["refbytes"] (borrows), ["list", x], ["opt", x], ["res", ok, err], ["num", max, not], ["tok"] *)
RECURSIVE Read(_, _, _)
Read(ty, in, mode) ==
  CASE ty.t = "text" -> IF in.t = "str" THEN [t |-> "text", c |-> in.c] ELSE Bad
    [] ty.t = "ref" -> IF in.t = "str" /\ mode = "borrowed" THEN [t |-> "text", c |-> in.c] ELSE Bad
    [] ty.t = "refbytes" -> IF in.t = "bytes" /\ mode = "borrowed" THEN [t |-> "list", l |-> [j \in 1..Len(in.c) |-> [t |-> "num", x |-> in.c[j]]]] ELSE Bad
    [] ty.t = "list" -> IF in.t # "seq" THEN Bad
                        ELSE LET l == [j \in 1..Len(in.l) |-> Read(ty.x, in.l[j], mode)]
                             IN IF \E j \in 1..Len(l) : l[j] = Bad THEN Bad ELSE [t |-> "list", l |-> l]
    [] ty.t = "opt" -> IF in.t = "none" THEN [t |-> "opt", l |-> << >>]
                       ELSE IF in.t # "some" THEN Bad
                       ELSE LET x == Read(ty.x, in.x, mode) IN IF x = Bad THEN Bad ELSE [t |-> "opt", l |-> <<x>>]
    [] ty.t = "res" -> IF in.t # "variant" THEN Bad
                       ELSE IF in.n \notin {"Ok", "Err"} THEN Bad
                       ELSE LET x == Read(IF in.n = "Ok" THEN ty.ok ELSE ty.err, in.x, mode)
                            IN IF x = Bad THEN Bad ELSE [t |-> "res", ok |-> IF in.n = "Ok" THEN 1 ELSE 0, x |-> x]
    [] ty.t = "num" -> IF in.t = "int" /\ in.x \in 0..ty.max /\ in.x # ty.not THEN [t |-> "num", x |-> in.x] ELSE Bad
    [] ty.t = "tok" -> IF in.t = "int" THEN [t |-> "tok", x |-> in.x] ELSE Bad
RECURSIVE Toks(_)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(Tail(s))
Toks(v) == CASE v.t = "tok" -> 1 [] v.t \in {"list", "opt"} -> Sum([j \in 1..Len(v.l) |-> Toks(v.l[j])]) [] v.t = "res" -> Toks(v.x) [] OTHER -> 0
Init0 == [err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
(* live: how many tokens exist afterwards that didn't before *)
Act(st, e) ==
  CASE e.k = "write" -> IF e.r # Tree(e.v) THEN Fail(st, "it is written as something else") ELSE IF e.live # 0 THEN Fail(st, "writing changes what it writes") ELSE st
    [] e.k = "read" -> LET v == Read(e.ty, e.in, e.mode) IN
                       IF (v = Bad) # (e.r.t = "bad") THEN Fail(st, IF v = Bad THEN "it is read though it can't be" ELSE "it can't be read though it should")
                       ELSE IF v # e.r THEN Fail(st, "another value is read")
                       ELSE IF e.live # (IF v = Bad THEN 0 ELSE Toks(v)) THEN Fail(st, "elements are lost or left") ELSE st
    [] e.k = "end" -> IF e.left = 0 THEN st ELSE Fail(st, "something is left")
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == IF e.bad # 0 THEN Fail(st, "memory misused") ELSE Act(st, e)
================================================================================

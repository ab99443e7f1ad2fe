-------------------------------- MODULE Threads --------------------------------
(* What may be sent to and shared with other threads, and how lifetimes may be coerced.  *)
(* Types are trees:                                                                       *)
(*   [t: "leaf", send, sync]     a value with these properties                             *)
(*   [t: "own", l]               owns one of each (containers, sums, their allocator)      *)
(*   [t: "ref", x] [t: "mut", x] views                                                     *)
(*   [t: "shared", x]            one of several owners, of which the last destroys it      *)
(*   [t: "cell", x]              holds such an owner, replaceable through shared views     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Send(_)
RECURSIVE Sync(_)
Send(ty) ==
  CASE ty.t = "leaf" -> ty.send = 1
    [] ty.t = "own" -> \A j \in 1..Len(ty.l) : Send(ty.l[j])
    [] ty.t = "ref" -> Sync(ty.x)
    [] ty.t = "mut" -> Send(ty.x)
    [] ty.t \in {"shared", "cell"} -> Send(ty.x) /\ Sync(ty.x)
Sync(ty) ==
  CASE ty.t = "leaf" -> ty.sync = 1
    [] ty.t = "own" -> \A j \in 1..Len(ty.l) : Sync(ty.l[j])
    [] ty.t \in {"ref", "mut"} -> Sync(ty.x)
    [] ty.t \in {"shared", "cell"} -> Send(ty.x) /\ Sync(ty.x)
(* An object promises what its type says; it hides a value that keeps these promises. *)
Promised(has) == [t |-> "leaf", send |-> IF "Send" \in has THEN 1 ELSE 0, sync |-> IF "Sync" \in has THEN 1 ELSE 0]
Keeps(leaf, has) == ("Send" \in has => leaf.send = 1) /\ ("Sync" \in has => leaf.sync = 1)
(* Where a value of a shorter life could be put in through it, its type can't change. *)
Coercible(kind, how) == how = "shrink" /\ kind \in {"own", "ref", "shared"}
Set(s) == {s[j] : j \in 1..Len(s)}
B(b) == IF b THEN 1 ELSE 0
Init0 == [err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
Act(st, e) ==
  CASE e.k = "auto" -> IF e.send # B(Send(e.ty)) THEN Fail(st, IF e.send = 1 THEN "may be sent though it mustn't" ELSE "can't be sent though it may")
                       ELSE IF e.sync # B(Sync(e.ty)) THEN Fail(st, IF e.sync = 1 THEN "may be shared though it mustn't" ELSE "can't be shared though it may")
                       ELSE st
    [] e.k = "made" -> IF e.r # B(Keeps(e.of, Set(e.has))) THEN Fail(st, IF e.r = 1 THEN "an object promises what its value doesn't keep" ELSE "no object of what keeps its promises") ELSE st
    [] e.k = "up" -> IF e.r = 1 /\ ~(Set(e.to) \subseteq Set(e.from)) THEN Fail(st, "a promise appears") ELSE st
    [] e.k = "coerce" -> IF e.r = 1 /\ ~Coercible(e.kind, e.how) THEN Fail(st, "a lifetime changes that mustn't") ELSE st
    [] OTHER -> Fail(st, "unknown event")
Step(st, e) == Act(st, e)
================================================================================

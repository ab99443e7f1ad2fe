------------------------------- MODULE Reports -------------------------------
(* Descriptions of types, as trees: name, module, kind, version, and fields in order,  *)
(* each with its name and its type's description. Types are the same exactly if their  *)
(* trees are.                                                                            *)
EXTENDS Integers, Sequences, TLC
Init0 == [err |-> ""]
Fail(st, m) == [st EXCEPT !.err = m]
RECURSIVE Flat(_), FlatFields(_)
(* Known finding: identifiers are made of this text only. *)
Mark(k) == CASE k = "struct" -> "<0>" [] k = "union" -> "<1>" [] OTHER -> k
FlatFields(f) == IF f = <<>> THEN "" ELSE (Head(f).n \o Flat(Head(f).t)) \o FlatFields(Tail(f))
Flat(a) == ((a.m \o a.n) \o Mark(a.k)) \o FlatFields(a.f)
Compare(st, e) ==
  IF (e.a = e.b) # (e.compat = 1) THEN Fail(st, IF e.compat = 1 THEN "different types are said to be compatible" ELSE "the same type is said to be incompatible")
  ELSE IF (e.a = e.b) # (e.tapmoc = 1) THEN Fail(st, "compatible one way but not the other")
  ELSE IF (e.a = e.b) # (e.eq = 1) THEN Fail(st, "comparing descriptions is wrong")
  ELSE IF e.a = e.b /\ (e.ids # 1 \/ e.hashes # 1 \/ e.shown # 1) THEN Fail(st, "the same type has two identifiers, hashes or texts")
  ELSE IF e.ids = 1 /\ Flat(e.a) # Flat(e.b) THEN Fail(st, "different types have the same identifier")
  ELSE st
(* A declaration: its description has all of it; fields may be listed from the last one. *)
RECURSIVE Says(_, _)
Says(got, want) ==
  LET n == Len(want.f)
  IN /\ <<got.n, got.m, got.k, got.v>> = <<want.n, want.m, want.k, want.v>> /\ Len(got.f) = n
     /\ \/ \A i \in 1..n : got.f[i].n = want.f[i].n /\ Says(got.f[i].t, want.f[i].t)
        \/ \A i \in 1..n : got.f[i].n = want.f[n + 1 - i].n /\ Says(got.f[i].t, want.f[n + 1 - i].t)
Names(a) == [i \in 1..Len(a.f) |-> a.f[i].n]
Step(st, e) ==
  CASE e.k = "cmp" -> Compare(st, e)
    [] e.k = "types" -> (* two types as they are declared *)
                        LET s == Compare(st, e)
                        IN IF s.err # "" \/ (e.same = 1) = (e.a = e.b) THEN s
                           ELSE Fail(st, IF e.same = 1 THEN "a type has two descriptions" ELSE "two types have the same description")
    [] e.k = "decl" -> IF ~Says(e.a, e.want) THEN Fail(st, "the description doesn't say what was declared")
                       ELSE IF e.id # 1 THEN Fail(st, "the identifier isn't that of the description") ELSE st
    [] e.k = "fields" -> IF e.names = Names(e.a) /\ e.consts = Names(e.a) /\ e.after = 0 THEN st ELSE Fail(st, "fields are listed wrong")
    [] e.k = "show" -> IF e.r = 1 THEN st ELSE Fail(st, "the text leaves something out")
    [] OTHER -> Fail(st, "unknown event")
=============================================================================

------------------------------ MODULE ReportsMC ------------------------------
(* How it is done: descriptions are compared part by part, fields are lists whose      *)
(* nodes are walked in step; what is left to compare is on a stack. Declarations list  *)
(* their fields from the last one, as every field is put in front of those before it.  *)
EXTENDS Reports, FiniteSets
CONSTANTS Mistake, Tops, Inner, FieldNames, Modules, Versions, Kinds, MaxFields
VARIABLES st, a, b, work, ans
vars == <<st, a, b, work, ans>>
Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxFields}
Nodes(names, fields) == [n : names, m : Modules, v : Versions, k : Kinds, f : fields]
Leaves == Nodes(Inner, {<<>>})
Fields == [n : FieldNames, t : Leaves]
Trees == Nodes(Tops, Seqs(Fields))
(* and one level more: a field whose type has fields *)
Deep == {[n |-> "T", m |-> "m", v |-> 0, k |-> "struct", f |-> <<[n |-> "x", t |-> t]>>] : t \in Trees}
Init == /\ st = Init0 /\ ans = -1
        /\ \/ a \in Trees /\ b \in Trees
           \/ a \in Deep /\ b \in Deep
        /\ work = <<[x |-> a, y |-> b]>>
Same(x, y) == /\ x.n = y.n /\ (x.m = y.m \/ Mistake = "module") /\ (x.v = y.v \/ Mistake = "version") /\ (x.k = y.k \/ Mistake = "kind")
              /\ (Len(x.f) = Len(y.f) \/ Mistake = "zip")
Less(x, y) == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
Pairs(x, y) == [i \in 1..Less(x.f, y.f) |-> [x |-> x.f[i].t, y |-> y.f[i].t]]
FieldsSame(x, y) == \A i \in 1..Less(x.f, y.f) : x.f[i].n = y.f[i].n \/ Mistake = "fieldnames"
Done(r) == /\ ans' = r /\ work' = <<>>
           /\ st' = Step(st, [k |-> "cmp", a |-> a, b |-> b, compat |-> r, tapmoc |-> r, eq |-> r, ids |-> IF Flat(a) = Flat(b) THEN 1 ELSE 0, hashes |-> 1, shown |-> 1])
Compare1 == /\ ans = -1 /\ work # <<>> /\ UNCHANGED <<a, b>>
            /\ LET x == Head(work).x  y == Head(work).y
               IN IF ~Same(x, y) \/ ~FieldsSame(x, y) THEN Done(0)
                  ELSE LET rest == (IF Mistake = "shallow" THEN <<>> ELSE Pairs(x, y)) \o Tail(work)
                       IN IF rest = <<>> THEN Done(1) ELSE work' = rest /\ UNCHANGED <<st, ans>>
Next == Compare1
Conforms == st.err = ""
(* a declaration with its fields put one in front of the other says it still *)
Rev(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
Declared == Says([a EXCEPT !.f = Rev(@)], a) /\ (Says(a, b) => Len(a.f) = Len(b.f))
=============================================================================

------------------------------ MODULE LayoutMC ------------------------------
(* Soundness of the layout algorithm itself, over every type of a small universe: any value of any type, with anything
   in the bits its encoding leaves open, decodes to itself, is none of the values claimed forbidden, and uses none of
   the bits claimed unused; so packed sums of it are sound in turn. *)
EXTENDS Layout
CONSTANT Deep
P1 == <<"p", 1, 1>>
U0 == <<"p", 0, 1>>
Leaf == {U0, P1, <<"p", 2, 2>>, <<"nz", 1, 1>>, <<"nz", 2, 2>>, <<"rng", 2, 255>>, <<"rng", 2, 254>>}
Struct1 == {<<"st", <<P1, <<"p", 2, 2>>>>>>, <<"st", <<<<"p", 2, 2>>, P1>>>>, <<"st", <<P1, <<"nz", 1, 1>>>>>>, <<"st", <<P1, <<"nz", 2, 2>>>>>>,
            <<"al", 4, <<P1>>>>, <<"st", <<<<"rng", 2, 255>>, P1>>>>, <<"st", <<P1, <<"p", 4, 4>>>>>>, <<"arr", 1, <<"nz", 2, 2>>>>, <<"arr", 2, <<"nz", 1, 1>>>>, <<"arr", 3, P1>>, <<"st", <<P1, <<"res", P1, P1>>>>>>,
            <<"mu", <<"nz", 1, 1>>>>, <<"un", <<P1, <<"p", 2, 2>>>>>>, <<"tag", 1, <<P1, <<"nz", 2, 2>>>>>>, <<"tag", 2, <<U0, P1>>>>,
            <<"p", 4, 4>>, <<"st", <<<<"p", 4, 4>>, <<"rng", 2, 255>>>>>>}
Base == Leaf \cup Struct1
Sums(A, B) == {<<"res", a, b>> : a \in A, b \in B}
S1 == Sums(Base, Base)
Sub1 == {U0, P1, <<"arr", 3, P1>>, <<"nz", 2, 2>>, <<"rng", 2, 255>>, <<"st", <<P1, <<"p", 2, 2>>>>>>, <<"st", <<P1, <<"p", 4, 4>>>>>>, <<"st", <<P1, <<"nz", 2, 2>>>>>>}
S2 == Sums(Sums(Sub1, Sub1), Sub1) \cup Sums(Sub1, Sums(Sub1, Sub1))
S2b == Sums(Sums(Sub1, Sub1), Sums(Sub1, Sub1)) \cup {<<"res", <<"st", <<P1, s>>>>, b>> : s \in Sums(Sub1, Sub1), b \in Sub1}
Ens == {<<"en", <<a, b, c>>>> : a \in Sub1, b \in Sub1, c \in Sub1}
S3 == {<<"en", <<a, b, c, d, e>>>> : a \in Sub1, b \in {U0, P1, <<"nz", 2, 2>>}, c \in Sub1, d \in {P1, <<"rng", 2, 255>>}, e \in Sub1}
      \cup {<<"opt", <<"opt", <<"res", a, b>>>>>> : a \in Base, b \in Base}
Types == Base \cup S1 \cup S2 \cup Ens \cup (IF Deep THEN S2b \cup S3 ELSE {})

RECURSIVE Vals(_)
RECURSIVE Prod(_)
Prod(vs) == IF vs = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in vs[1], r \in Prod(Tail1(vs))}
Bytes(n) == CASE n = 0 -> {<<>>} [] n = 1 -> {<<0>>, <<1>>, <<2>>, <<255>>} [] OTHER -> {[j \in 1..n |-> x] : x \in {0, 255}} \cup {[j \in 1..n |-> IF j = 1 THEN 0 ELSE 1], [j \in 1..n |-> IF j = 1 THEN 2 ELSE 0]}
Vals(t) ==
    CASE t[1] \in {"p"} -> Bytes(t[2])
      [] t[1] = "nz" -> {b \in Bytes(t[2]) : \E j \in 1..t[2] : b[j] # 0}
      [] t[1] = "rng" -> {<<b>> : b \in {0, 1, 2, 128, 255} \ (t[2]..t[3])}
      [] t[1] = "st" -> Prod([j \in 1..Len(t[2]) |-> Vals(t[2][j])])
      [] t[1] = "al" -> Prod([j \in 1..Len(t[3]) |-> Vals(t[3][j])])
      [] t[1] = "arr" -> Prod([j \in 1..t[2] |-> Vals(t[3])])
      [] t[1] = "mu" -> Bytes(Ann(t[2]).size)
      [] t[1] = "un" -> Bytes(Ann(t).size)
      [] t[1] = "tag" -> UNION {{<<k - 1, v>> : v \in Vals(t[3][k])} : k \in 1..Len(t[3])}
      [] t[1] = "res" -> {<<0, v>> : v \in Vals(t[2])} \cup {<<1, v>> : v \in Vals(t[3])}
      [] t[1] = "opt" -> {<<0, v>> : v \in Vals(t[2])} \cup {<<1, <<>>>>}
      [] t[1] = "en" -> UNION {{<<k - 1, v>> : v \in Vals(t[2][k])} : k \in 1..Len(t[2])}
Fill == {0, 255, 170, 85, 1}
Filled(e, x) == [j \in 1..Len(e) |-> e[j][1] | (x & Not8(e[j][2]))]
VARIABLE t
Init == t \in Types
Next == UNCHANGED t
Sound ==
    LET a == Ann(t)
        u == UbBytes(a.ub, a.size)
    IN /\ a.size % a.align = 0
       /\ \A v \in Vals(t) :
            LET e == Enc(a, v) IN
            /\ Len(e) = a.size
            /\ \A j \in 1..a.size : (e[j][1] & Not8(e[j][2])) = 0
            /\ \A x \in Fill :
                  LET b == Filled(e, x) IN
                  /\ Dec(a, b) = v
                  /\ ~Invalid(a.fv, b)
                  /\ Dec(a, [j \in 1..a.size |-> (b[j] & Not8(u[j])) | (x & u[j])]) = v
=============================================================================

------------------------------ MODULE LibraryMC ------------------------------
(* How it is done: next to every function, a library exports a function that takes a  *)
(* description and gives the function only if it is its own's, and, for those exported *)
(* with canaries, symbols whose names have the parameters of the build in them.        *)
EXTENDS Library
CONSTANTS Mistake, Names, Sigs, Params, Values
VARIABLES st, syms, mine, n
Some == CHOOSE s \in Sigs : TRUE
(* a library: [symbol: the function's name and a suffix |-> what it is] *)
Build(x, built) == [s \in (DOMAIN x) \X {"", "_stabbied", "_report"} |-> x[s[1]]]
                   @@ [s \in {<<f, p, built[p]>> : f \in DOMAIN x, p \in Params} |-> "canary"]
Init == \E d \in SUBSET Names : \E x \in [d -> Sigs] : \E built \in [Params -> Values] :
        /\ st = Init0([exports |-> x]) /\ syms = Build(x, built) /\ n = 0
        /\ mine \in [Params -> Values]
Checker(f, sig) == IF Mistake = "unread" THEN TRUE ELSE syms[<<f, "_stabbied">>] = sig
Get(f, sig) == LET found == <<f, "_stabbied">> \in DOMAIN syms
                   bare == Mistake = "bare" /\ <<f, "">> \in DOMAIN syms
               IN st' = Step(st, [k |-> "get", sym |-> f, sig |-> sig, told |-> 1, r |-> IF bare \/ (found /\ Checker(f, sig)) THEN 1 ELSE 0])
Needed == IF Mistake = "one" THEN {CHOOSE p \in Params : TRUE} ELSE Params
Canaried(f) == LET found == <<f, "">> \in DOMAIN syms
                   same == found /\ \A p \in Params : <<f, p, mine[p]>> \in DOMAIN syms
                   asked == \A p \in Needed : <<f, p, mine[p]>> \in DOMAIN syms
                   some == \E p \in Needed : <<f, p, mine[p]>> \in DOMAIN syms
               IN st' = Step(st, [k |-> "canaried", need |-> IF same THEN 1 ELSE 0, r |-> IF found /\ (IF Mistake = "any" THEN some ELSE asked) THEN 1 ELSE 0])
Next == /\ st.err = "" /\ n < 2 /\ n' = n + 1 /\ UNCHANGED <<syms, mine>>
        /\ \E f \in Names : (\E sig \in Sigs : Get(f, sig)) \/ Canaried(f)
Conforms == st.err = ""
=============================================================================

-------------------------------- MODULE LivesMC --------------------------------
(* Why lifetimes may only be coerced so: a place holds references that live long; it is   *)
(* used, through a handle whose type was coerced, as one of references that live shortly.  *)
EXTENDS Threads
CONSTANTS Mistake
Kinds == {"own", "ref", "mut", "shared", "cell"}
May(kind, how) == CASE Mistake = "mut" /\ kind = "mut" /\ how = "shrink" -> TRUE
                    [] Mistake = "cell" /\ kind = "cell" /\ how = "shrink" -> TRUE
                    [] Mistake = "grow" /\ how = "grow" -> TRUE
                    [] OTHER -> Coercible(kind, how)
VARIABLES kind, place, truly, handle, short, bad
vars == <<kind, place, truly, handle, short, bad>>
(* place: what is really in it; truly: as what its owner will use it; handle: as what it is used meanwhile *)
Init == kind \in Kinds /\ truly \in {"long", "short"} /\ place = truly /\ handle = truly /\ short = TRUE /\ bad = FALSE
Coerce == /\ \E how \in {"shrink", "grow"} : May(kind, how) /\ handle' = (IF how = "shrink" THEN "short" ELSE "long")
          (* whoever owns it alone changes its own view of it, too *)
          /\ truly' = IF kind = "own" THEN handle' ELSE truly
          /\ (handle' = "short" => short) /\ UNCHANGED <<kind, place, short, bad>>
(* stores what its type allows: what lives longer is also that *)
Store == kind \in {"own", "mut", "cell"} /\ place' \in (IF handle = "long" THEN {"long"} ELSE IF short THEN {"long", "short"} ELSE {}) /\ UNCHANGED <<kind, truly, handle, short, bad>>
Ends == short /\ short' = FALSE /\ UNCHANGED <<kind, place, truly, handle, bad>>
(* types that mention a life that is over aren't used any more *)
Read == \E as \in {truly, handle} : (as = "short" => short) /\ bad' = (bad \/ (place = "short" /\ ~short)) /\ UNCHANGED <<kind, place, truly, handle, short>>
Next == Coerce \/ Store \/ Ends \/ Read
NoDangling == ~bad
================================================================================

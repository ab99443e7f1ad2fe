------------------------------- MODULE ViewsMC -------------------------------
(* How it is done: opening a view copies the viewed place's bits and converts the     *)
(* copy; the place itself is left with bits that no longer own anything. Closing a     *)
(* mutable view converts its content back and overwrites the place without destroying *)
(* what was there; closing a shared view destroys nothing. Unwinding closes the open   *)
(* views from the innermost to the outermost.                                          *)
EXTENDS Views
CONSTANTS Mistake, MaxDepth, MaxOps
VARIABLES st, places, hows, held, n, nextT
vars == <<st, places, hows, held, n, nextT>>
(* places: the base's bits, then each open view's: <<content, token>> *)
Init == st = Init0 /\ places = << >> /\ hows = << >> /\ held = {} /\ n = 0 /\ nextT = 1
Ev(k) == [k |-> k, bad |-> 0]
Last == Len(places)
Val(v) == [c |-> <<v[1]>>, t |-> <<v[2]>>]
Make == /\ places = << >> /\ places' = <<<<1, nextT>>>> /\ nextT' = nextT + 1 /\ UNCHANGED <<hows, held>>
        /\ st' = Step(st, Ev("make") @@ [d |-> << >>] @@ Val(<<1, nextT>>))
InnerMut == IF hows = << >> THEN TRUE ELSE hows[Len(hows)] = "mut"
Open(how) == /\ Last \in 1..MaxDepth /\ places' = Append(places, places[Last]) /\ hows' = Append(hows, how) /\ UNCHANGED <<held, nextT>>
             /\ (how = "ref" \/ InnerMut)
             /\ st' = Step(st, Ev("open") @@ [how |-> how, d |-> << >>])
(* the places after closing the innermost view, and what that destroys *)
Closed(p, h) ==
  LET m == Len(p)
      under == SubSeq(p, 1, m - 1)
  IN IF h[Len(h)] = "ref" THEN <<under, IF Mistake = "dropref" THEN <<p[m][2]>> ELSE << >>>>
     ELSE <<[under EXCEPT ![m - 1] = IF Mistake = "lost" THEN @ ELSE p[m]], IF Mistake = "assign" THEN <<p[m - 1][2]>> ELSE << >>>>
Close == /\ hows # << >> /\ UNCHANGED <<held, nextT>>
         /\ LET r == Closed(places, hows) IN places' = r[1] /\ st' = Step(st, Ev("close") @@ [d |-> r[2]])
         /\ hows' = SubSeq(hows, 1, Len(hows) - 1)
RECURSIVE AllClosed(_, _)
AllClosed(p, h) == IF h = << >> THEN <<p, << >>>>
                   ELSE LET r == Closed(p, h)
                            s == AllClosed(IF Mistake = "skip" THEN SubSeq(p, 1, Len(p) - 1) ELSE r[1], SubSeq(h, 1, Len(h) - 1))
                        IN <<s[1], r[2] \o s[2]>>
Unwind == /\ hows # << >> /\ UNCHANGED <<held, nextT>> /\ hows' = << >>
          /\ LET r == AllClosed(places, hows) IN places' = r[1] /\ st' = Step(st, Ev("unwind") @@ [d |-> r[2]])
Read == /\ places # << >> /\ UNCHANGED <<places, hows, held, nextT>>
        /\ st' = Step(st, Ev("read") @@ [d |-> << >>] @@ Val(places[Last]))
Writable == places # << >> /\ InnerMut
Set == /\ Writable /\ nextT' = nextT + 1 /\ UNCHANGED <<hows, held>>
       /\ places' = [places EXCEPT ![Last] = <<nextT, nextT>>]
       /\ st' = Step(st, Ev("set") @@ [d |-> <<places[Last][2]>>] @@ Val(<<nextT, nextT>>))
Swap == /\ Writable /\ nextT' = nextT + 1 /\ UNCHANGED hows
        /\ places' = [places EXCEPT ![Last] = <<nextT, nextT>>] /\ held' = held \cup {places[Last][2]}
        /\ st' = Step(st, Ev("swap") @@ [d |-> << >>, oc |-> <<places[Last][1]>>, ot |-> <<places[Last][2]>>] @@ Val(<<nextT, nextT>>))
Drop == /\ places # << >> /\ hows = << >> /\ places' = << >> /\ UNCHANGED <<hows, held, nextT>>
        /\ st' = Step(st, Ev("drop") @@ [d |-> <<places[1][2]>>])
Next == /\ st.err = "" /\ n < MaxOps /\ n' = n + 1
        /\ (Make \/ Open("mut") \/ Open("ref") \/ Close \/ Unwind \/ Read \/ Set \/ Swap \/ Drop)
Conforms == st.err = ""
(* only the innermost place owns; what it holds isn't held elsewhere *)
Owned == places # << >> => places[Last][2] \notin held
=============================================================================

CONSTANTS NS = 2
 Toks = 3
 Caps1 = {1, 4}
 Fallible = {1}
 KindsUsed = {"new","withcap","newbox","newarc","collect","extend","push","try_push","make_mut","set","remove","swap_remove","truncate","try_reserve","swap","drain","clone","share","downgrade","wshare","upgrade","pop","into","tobs","tosov","tovec","toarc","inner","next","back","dd","stop","forget","drop"}
INIT Init
NEXT Next
INVARIANTS Conserved Counted Fits
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE

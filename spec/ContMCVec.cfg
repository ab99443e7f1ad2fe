CONSTANTS NS = 2
 Toks = 3
 Caps1 = {4}
 Fallible = {1}
 KindsUsed = {"new","withcap","newbox","collect","extend","push","try_push","set","remove","swap_remove","truncate","try_reserve","swap","drain","clone","pop","into","tobs","tosov","tovec","inner","next","back","dd","stop","forget","drop"}
INIT Init
NEXT Next
INVARIANTS Conserved Counted Fits
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE

CONSTANTS T = {1,2,3} Budget = 2 Variant = "fixed" Unique = "atomic" Ops = {"read","drops","dropw","up","mut","down"}
INIT Init
NEXT Next
INVARIANTS OnceAndLate Counts Exclusive Ordered
CHECK_DEADLOCK FALSE

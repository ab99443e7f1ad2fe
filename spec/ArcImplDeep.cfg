CONSTANTS T = {1,2} Budget = 4 Variant = "fixed" Unique = "atomic" Ops = {"clone","down","wclone","read","drops","dropw","up","mut"}
INIT Init
NEXT Next
INVARIANTS OnceAndLate Counts Exclusive Ordered
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "lost" N = 5

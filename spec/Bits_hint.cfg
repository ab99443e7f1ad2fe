INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "hint" N = 5

INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" N = 7

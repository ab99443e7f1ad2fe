CONSTANTS Mistake = "none"
INIT Init
NEXT Next
INVARIANT NoDangling
CHECK_DEADLOCK FALSE

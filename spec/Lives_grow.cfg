CONSTANTS Mistake = "grow"
INIT Init
NEXT Next
INVARIANT NoDangling
CHECK_DEADLOCK FALSE

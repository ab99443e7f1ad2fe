CONSTANTS Mistake = "mut"
INIT Init
NEXT Next
INVARIANT NoDangling
CHECK_DEADLOCK FALSE

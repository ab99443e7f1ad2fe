CONSTANTS Mistake = "cell"
INIT Init
NEXT Next
INVARIANT NoDangling
CHECK_DEADLOCK FALSE

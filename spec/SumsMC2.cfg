CONSTANT N = 6
INIT Init
NEXT Next
INVARIANT Safe
CHECK_DEADLOCK FALSE

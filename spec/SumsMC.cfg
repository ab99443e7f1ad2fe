CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Safe
CHECK_DEADLOCK FALSE

CONSTANT NS = 3
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE

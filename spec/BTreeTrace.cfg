CONSTANT NS = 4
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE

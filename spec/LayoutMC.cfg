CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE

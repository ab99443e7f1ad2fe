CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE

CONSTANTS Mistake = "none"
 MaxT = 2
 MaxH = 3
INIT Init
NEXT Next
INVARIANTS NoMisuse Hidden
CHECK_DEADLOCK FALSE

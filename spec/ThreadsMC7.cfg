CONSTANTS Mistake = "none"
 MaxT = 3
 MaxH = 4
INIT Init
NEXT Next
INVARIANTS NoMisuse Hidden
CHECK_DEADLOCK FALSE

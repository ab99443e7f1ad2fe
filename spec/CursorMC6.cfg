INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Once
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" W = 15 MaxLen = 6 MaxOps = 10

INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Once
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "neglen" W = 7 MaxLen = 4 MaxOps = 8

INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Owned
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" MaxDepth = 3 MaxOps = 10

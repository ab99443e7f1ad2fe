INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Owned
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "assign" MaxDepth = 3 MaxOps = 8

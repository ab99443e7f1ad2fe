INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "shared" Objs = {1, 2} MaxOps = 6

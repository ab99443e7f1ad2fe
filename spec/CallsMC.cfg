INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" Objs = {1, 2} MaxOps = 7

INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Progress
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "early" Threads = {1, 2} Calls = 2

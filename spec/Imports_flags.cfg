INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Progress
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "flags" Threads = {1, 2} Calls = 2

CONSTANTS NT = 3
 Contents = {1, 2}
 MaxAsk = 6
 Recheck = TRUE
 Forget = "own"
INIT Init
NEXT Next
INVARIANTS Answered Permanent NoLeak
CHECK_DEADLOCK FALSE

CONSTANTS NT = 3
 Contents = {1, 2}
 MaxAsk = 4
 Recheck = FALSE
 Forget = "own"
INIT Init
NEXT Next
INVARIANTS Answered Permanent NoLeak
CHECK_DEADLOCK FALSE

CONSTANTS NT = 2
 Keys = {1, 2}
 Reuse = FALSE
 MaxOps = 3
INIT Init
NEXT Next
INVARIANT NoneLost
CONSTRAINT Retries
CHECK_DEADLOCK FALSE

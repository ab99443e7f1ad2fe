CONSTANTS NT = 3
 Keys = {1, 2}
 Reuse = FALSE
 MaxOps = 4
INIT Init
NEXT Next
INVARIANT NoneLost
CONSTRAINT Retries
CHECK_DEADLOCK FALSE

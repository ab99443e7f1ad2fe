CONSTANTS NS = 3
 Keys = {1, 2, 3}
 Vals = {0}
 Limit = 3
 Rep = 0
 CopyShared = TRUE
 CountChildren = TRUE
INIT Init
NEXT Next
INVARIANTS Counted Shaped Refines
CHECK_DEADLOCK FALSE

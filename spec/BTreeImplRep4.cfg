CONSTANTS NS = 2
 Keys = {1, 2, 3, 4}
 Vals = {0, 1}
 Limit = 3
 Rep = 1
 CopyShared = TRUE
 CountChildren = TRUE
INIT Init
NEXT Next
INVARIANTS Counted Shaped Refines
CHECK_DEADLOCK FALSE

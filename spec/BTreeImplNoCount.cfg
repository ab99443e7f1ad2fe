CONSTANTS NS = 2
 Keys = {1, 2, 3, 4, 5}
 Vals = {0}
 Limit = 3
 Rep = 0
 CopyShared = TRUE
 CountChildren = FALSE
INIT Init
NEXT Next
INVARIANTS Counted Shaped Refines
CHECK_DEADLOCK FALSE

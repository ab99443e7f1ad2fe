CONSTANTS
 NS = 2
 NObj = 1
 Tags = {0, 2}
 Sets = {8}
 HeadFirst = FALSE
 UpcastDrops = TRUE
 ThinCast = FALSE
 ByName = FALSE
INIT Init
NEXT Next
INVARIANTS Refines Once Live
CHECK_DEADLOCK FALSE

CONSTANTS
 NS = 2
 NObj = 1
 Tags = {0, 12}
 Sets = {8, 14}
 HeadFirst = FALSE
 UpcastDrops = FALSE
 ThinCast = FALSE
 ByName = FALSE
INIT Init
NEXT Next
INVARIANTS Refines Once Live
CHECK_DEADLOCK FALSE

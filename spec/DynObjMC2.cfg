CONSTANTS
 NS = 2
 NObj = 2
 Tags = {0, 2}
 Sets = {5}
 HeadFirst = FALSE
 UpcastDrops = FALSE
 ThinCast = FALSE
 ByName = FALSE
INIT Init
NEXT Next
INVARIANTS Refines Once Live
CHECK_DEADLOCK FALSE

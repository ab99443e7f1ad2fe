CONSTANTS
 N = 4
 RawMin = FALSE
 ShortMax = FALSE
 RawSub = FALSE
 RawAnd = TRUE
INIT Init
NEXT Next
INVARIANTS Accepts InRange Reads Equal Order Prints
CHECK_DEADLOCK FALSE

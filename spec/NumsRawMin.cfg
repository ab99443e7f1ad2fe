CONSTANTS
 N = 4
 RawMin = TRUE
 ShortMax = FALSE
 RawSub = FALSE
 RawAnd = FALSE
INIT Init
NEXT Next
INVARIANTS Accepts InRange Reads Equal Order Prints
CHECK_DEADLOCK FALSE

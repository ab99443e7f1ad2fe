CONSTANTS
 N = 4
 RawMin = FALSE
 ShortMax = FALSE
 RawSub = TRUE
 RawAnd = FALSE
INIT Init
NEXT Next
INVARIANTS Accepts InRange Reads Equal Order Prints
CHECK_DEADLOCK FALSE

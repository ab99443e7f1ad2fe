CONSTANTS
 N = 5
 RawMin = FALSE
 ShortMax = FALSE
 RawSub = FALSE
 RawAnd = FALSE
INIT Init
NEXT Next
INVARIANTS Accepts InRange Reads Equal Order Prints
CHECK_DEADLOCK FALSE

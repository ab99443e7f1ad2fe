INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Fits
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "borrow" MaxLen = 4 Room = 8

INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Fits
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "short" MaxLen = 4 Room = 8

INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Fits
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "leak" MaxLen = 4 Room = 8

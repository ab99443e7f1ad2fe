INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Fits
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" MaxLen = 7 Room = 8

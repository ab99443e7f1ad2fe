CONSTANTS NS = 2
 Bytes = {97, 195, 169}
 MaxLen = 3
 MaxObj = 2
INIT Init
NEXT Next
INVARIANTS AlwaysUtf8 Counted
CONSTRAINT Small
CHECK_DEADLOCK FALSE

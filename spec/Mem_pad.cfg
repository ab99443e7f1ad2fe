INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "pad" Aligns = {1, 2, 4, 8} Elems = {1, 3} Prefixes = {1, 2, 5} Caps = {1, 2, 3} Addrs = {8, 12, 16, 20, 24, 33, 34} MaxOps = 3

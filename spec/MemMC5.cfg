INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "" Aligns = {1, 2, 4, 8, 16} Elems = {1, 3} Prefixes = {1, 2, 5} Caps = {1, 2, 3, 7} Addrs = {16, 24, 36, 48, 49, 50} MaxOps = 4

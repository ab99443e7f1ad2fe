INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "bare" Names = {"f", "g"} Sigs = {"a", "b", "c"} Params = {"p", "q"} Values = {0, 1}

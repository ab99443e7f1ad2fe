INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Declared
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "kind" Tops = {"T"} Inner = {"p", "q"} FieldNames = {"x", "y"} Modules = {"m"} Versions = {0} Kinds = {"struct", "union"} MaxFields = 2

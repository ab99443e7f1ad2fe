INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT Declared
CHECK_DEADLOCK FALSE
CONSTANTS Mistake = "version" Tops = {"T"} Inner = {"p", "q"} FieldNames = {"x", "y"} Modules = {"m"} Versions = {0, 1} Kinds = {"struct"} MaxFields = 2

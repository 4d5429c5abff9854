SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    Wide = FALSE
    EmitAll = TRUE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    EmitAll = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

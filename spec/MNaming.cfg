SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    EmitAll = TRUE
INVARIANT Inv
PROPERTY LocalSpec
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    MaxOps = 3
    EmitAll = TRUE
INVARIANT Inv
PROPERTY GrowsSpec
VIEW View
CHECK_DEADLOCK FALSE

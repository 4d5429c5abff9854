SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    EmitAll = TRUE
INVARIANT Inv
PROPERTY UnchangedSpec
VIEW View
CHECK_DEADLOCK FALSE

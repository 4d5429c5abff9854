SPECIFICATION Spec
CONSTANTS
    MaxOps = 3
    MaxDepth = 3
    EmitAll = TRUE
INVARIANT Inv
PROPERTY ModeOnlySpec
VIEW View
CHECK_DEADLOCK FALSE

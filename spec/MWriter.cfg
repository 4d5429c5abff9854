SPECIFICATION Spec
CONSTANTS
    MaxMrl = 24
    Single = 50
    EmitAll = TRUE
INVARIANT Inv
PROPERTY GrowsSpec
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    Width = 0
    CheckStale = FALSE
    EmitAll = TRUE
INVARIANT Inv
PROPERTY StaleSpec
VIEW View
CHECK_DEADLOCK FALSE

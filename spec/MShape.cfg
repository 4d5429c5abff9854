SPECIFICATION Spec
CONSTANTS
    MaxCh = 3
    MaxBad = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE

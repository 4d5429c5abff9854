SPECIFICATION Spec
CONSTANTS
    MaxCh = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE

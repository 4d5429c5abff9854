SPECIFICATION Spec
CONSTANTS
    MaxLen = 4
    MaxSteps = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

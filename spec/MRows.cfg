SPECIFICATION Spec
CONSTANTS
    MaxRows = 3
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE

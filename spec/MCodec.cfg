SPECIFICATION Spec
CONSTANTS
    Dense = FALSE
    Chunk = 40
INVARIANT Inv
PROPERTY OrderSpec
CHECK_DEADLOCK FALSE

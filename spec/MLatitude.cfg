SPECIFICATION Spec
CONSTANTS
    MaxObs = 2
    Forms = "few"
    Dense = FALSE
    Sizes = {12, 13, 200}
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

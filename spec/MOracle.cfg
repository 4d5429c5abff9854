SPECIFICATION Spec
CONSTANTS
    Bases = {"simple", "indexed", "two", "meta"}
    Stride = 31
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

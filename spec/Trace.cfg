SPECIFICATION Spec
INVARIANT HcDepth
VIEW Position
CHECK_DEADLOCK FALSE

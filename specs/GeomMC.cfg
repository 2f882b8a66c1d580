SPECIFICATION Spec
CONSTANTS N = 2 P = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE

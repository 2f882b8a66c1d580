SPECIFICATION Spec
CONSTANTS BUG = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE

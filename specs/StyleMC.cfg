SPECIFICATION Spec
CONSTANT BUG = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE

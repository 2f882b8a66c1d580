SPECIFICATION Spec
CONSTANT BUG = "sub"
INVARIANT Inv
CHECK_DEADLOCK FALSE

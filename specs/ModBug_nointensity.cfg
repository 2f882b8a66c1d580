SPECIFICATION Spec
CONSTANTS BUG = "nointensity"
INVARIANT Inv
CHECK_DEADLOCK FALSE

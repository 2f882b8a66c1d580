SPECIFICATION Spec
CONSTANTS
  MAXN = 2
  BUG = "bare"
INVARIANT Inv
CHECK_DEADLOCK FALSE

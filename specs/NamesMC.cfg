SPECIFICATION Spec
CONSTANTS
  MAXN = 2
  BUG = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE

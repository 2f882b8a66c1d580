SPECIFICATION Spec
CONSTANTS
  MAXN = 4
  BUG = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE

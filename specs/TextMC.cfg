SPECIFICATION Spec
CONSTANTS
  MAXLEN = 5
  MAXA = 7
  BUG = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE

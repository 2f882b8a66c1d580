SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXA = 7
  BUG = "round"
INVARIANT Inv
CHECK_DEADLOCK FALSE

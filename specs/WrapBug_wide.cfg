SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXW = 4
  BUG = "wide"
INVARIANT Obeys
CHECK_DEADLOCK FALSE

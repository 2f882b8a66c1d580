SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXW = 4
  BUG = "hard"
INVARIANT Obeys
CHECK_DEADLOCK FALSE

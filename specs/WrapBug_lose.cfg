SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXW = 4
  BUG = "lose"
INVARIANT Obeys
CHECK_DEADLOCK FALSE

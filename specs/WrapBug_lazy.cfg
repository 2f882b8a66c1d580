SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXW = 4
  BUG = "lazy"
INVARIANT Obeys
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MAXLEN = 7
  MAXW = 5
  BUG = "none"
INVARIANTS Obeys Unique
CHECK_DEADLOCK FALSE

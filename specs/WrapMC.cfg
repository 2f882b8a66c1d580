SPECIFICATION Spec
CONSTANTS
  MAXLEN = 5
  MAXW = 4
  BUG = "none"
INVARIANTS Obeys Unique
CHECK_DEADLOCK FALSE

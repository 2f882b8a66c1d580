SPECIFICATION Spec
CONSTANTS
  BW = 3
  BH = 2
  R = 1
  STEPS = 3
  BUG = "none"
INVARIANTS InBuffer InArea Nested
CHECK_DEADLOCK FALSE

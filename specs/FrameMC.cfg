SPECIFICATION Spec
CONSTANTS
  BW = 2
  BH = 2
  R = 1
  STEPS = 2
  BUG = "none"
INVARIANTS InBuffer InArea Nested
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  W = 1
  H = 1
  BUG = "first"
INVARIANT Sound
INVARIANT Goes
PROPERTY Restores
CHECK_DEADLOCK FALSE

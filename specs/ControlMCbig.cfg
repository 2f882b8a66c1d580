SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  BUG = "none"
INVARIANT Sound
INVARIANT Goes
PROPERTY Restores
CHECK_DEADLOCK FALSE

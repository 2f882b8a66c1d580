SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  BUG = "none"
INVARIANT Sound
INVARIANT Goes
PROPERTY Restores
CHECK_DEADLOCK FALSE

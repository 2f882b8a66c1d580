SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  BUG = "line"
INVARIANT Sound
INVARIANT Goes
PROPERTY Restores
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 2
  MAXT = 3
  STARTS = 2
  BUG = "none"
INVARIANT OwnOnly
INVARIANT Once
INVARIANT OneFrameEach
INVARIANT NotFaster
INVARIANT OneAhead
INVARIANT Running
CHECK_DEADLOCK FALSE

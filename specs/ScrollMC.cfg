SPECIFICATION Spec
CONSTANTS
  MAXN = 9
  MAXT = 10
  BUG = "none"
INVARIANT InRange
INVARIANT OnTrack
INVARIANT TouchesFirst
INVARIANT TouchesLast
INVARIANT Forward1
INVARIANT Size1
INVARIANT BarAside
CHECK_DEADLOCK FALSE

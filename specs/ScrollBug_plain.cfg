SPECIFICATION Spec
CONSTANTS
  MAXN = 6
  MAXT = 6
  BUG = "plain"
INVARIANT InRange
INVARIANT OnTrack
INVARIANT TouchesFirst
INVARIANT TouchesLast
INVARIANT Forward1
INVARIANT Size1
INVARIANT BarAside
CHECK_DEADLOCK FALSE

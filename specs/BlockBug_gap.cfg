SPECIFICATION Spec
CONSTANTS
  MAXW = 4
  MAXH = 3
  BUG = "gap"
INVARIANT InnerMeans
INVARIANT LeftAlone
INVARIANT TitlesMean
INVARIANT OffBorders
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MAXW = 4
  MAXH = 2
  BUG = "none"
INVARIANT InnerMeans
INVARIANT LeftAlone
INVARIANT TitlesMean
INVARIANT OffBorders
CHECK_DEADLOCK FALSE

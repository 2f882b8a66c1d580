SPECIFICATION Spec
CONSTANTS
  MAXW = 7
  MAXH = 3
  BUG = "none"
INVARIANT InnerMeans
INVARIANT LeftAlone
INVARIANT TitlesMean
INVARIANT OffBorders
CHECK_DEADLOCK FALSE

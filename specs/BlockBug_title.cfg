SPECIFICATION Spec
CONSTANTS
  MAXW = 3
  MAXH = 3
  BUG = "title"
INVARIANT InnerMeans
INVARIANT LeftAlone
INVARIANT TitlesMean
INVARIANT OffBorders
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MAXW = 6
  BUG = "none"
INVARIANT GaugeMeans
INVARIANT TabsMean
INVARIANT PopupsMean
CHECK_DEADLOCK FALSE

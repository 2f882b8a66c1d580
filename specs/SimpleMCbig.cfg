SPECIFICATION Spec
CONSTANTS
  MAXW = 14
  BUG = "none"
INVARIANT GaugeMeans
INVARIANT TabsMean
INVARIANT PopupsMean
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MAXW = 6
  BUG = "shift"
INVARIANT GaugeMeans
INVARIANT TabsMean
INVARIANT PopupsMean
CHECK_DEADLOCK FALSE

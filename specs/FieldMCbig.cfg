SPECIFICATION Spec
CONSTANTS
  MAXLEN = 7
  KS = {0, 1, 2, 3, 5}
  BUG = "none"
INVARIANT InRange
INVARIANT SameText
INVARIANT CursorIn
INVARIANT FitsIn
INVARIANT AsLong
INVARIANT NoFurther
INVARIANT AllShown
CHECK_DEADLOCK FALSE

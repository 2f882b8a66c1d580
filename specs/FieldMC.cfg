SPECIFICATION Spec
CONSTANTS
  MAXLEN = 5
  KS = {0, 1, 3, 4}
  BUG = "none"
INVARIANT InRange
INVARIANT SameText
INVARIANT CursorIn
INVARIANT FitsIn
INVARIANT AsLong
INVARIANT NoFurther
INVARIANT AllShown
CHECK_DEADLOCK FALSE

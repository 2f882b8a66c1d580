SPECIFICATION Spec
CONSTANTS
  MAXLEN = 4
  KS = {1, 3}
  BUG = "free"
INVARIANT InRange
INVARIANT SameText
INVARIANT CursorIn
INVARIANT FitsIn
INVARIANT AsLong
INVARIANT NoFurther
INVARIANT AllShown
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS BUG = "skip" MAXLEN = 3
INVARIANT InvAll
CHECK_DEADLOCK FALSE

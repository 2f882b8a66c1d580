SPECIFICATION Spec
CONSTANTS BUG = "none" MAXLEN = 6
INVARIANT InvAll
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS BUG = "none" MAXLEN = 4
INVARIANT InvAll
CHECK_DEADLOCK FALSE

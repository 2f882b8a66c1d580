SPECIFICATION Spec
CONSTANTS
 B = 4
 N = 7
 Alphabet = {27, 91, 60, 49, 59, 77}
 HoldEsc = TRUE
 HoldRune = TRUE
 HoldRun = TRUE
INVARIANTS Settled Ended Early Accounted
CHECK_DEADLOCK FALSE

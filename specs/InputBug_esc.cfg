SPECIFICATION Spec
CONSTANTS
 B = 2
 N = 5
 Alphabet = {27, 91, 65, 97}
 HoldEsc = FALSE
 HoldRune = TRUE
 HoldRun = TRUE
INVARIANTS Settled Ended Early Accounted
CHECK_DEADLOCK FALSE

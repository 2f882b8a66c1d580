SPECIFICATION Spec
CONSTANTS
 B = 2
 N = 5
 Alphabet = {27, 97, 195, 169}
 HoldEsc = TRUE
 HoldRune = FALSE
 HoldRun = TRUE
INVARIANTS Settled Ended Early Accounted
CHECK_DEADLOCK FALSE

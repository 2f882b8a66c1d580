SPECIFICATION Spec
CONSTANTS
 B = 2
 N = 5
 Alphabet = {27, 91, 65, 79, 49, 59, 77, 97, 195, 169, 0, 32}
 HoldEsc = TRUE
 HoldRune = TRUE
 HoldRun = TRUE
INVARIANTS Settled Ended Early Accounted
CHECK_DEADLOCK FALSE

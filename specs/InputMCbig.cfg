SPECIFICATION Spec
CONSTANTS
 B = 3
 N = 6
 Alphabet = {27, 91, 79, 60, 49, 77, 97, 195, 169}
 HoldEsc = TRUE
 HoldRune = TRUE
 HoldRun = TRUE
INVARIANTS Settled Ended Early Accounted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MAXN = 5 VALS = {0, 1, 3, 9} NMAX = 2 BUG = "none"
INVARIANTS Rule Tight ExactBest
CHECK_DEADLOCK FALSE

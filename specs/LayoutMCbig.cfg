SPECIFICATION Spec
CONSTANTS MAXN = 4 VALS = {0, 1, 3} NMAX = 3 BUG = "none"
INVARIANTS Rule Tight ExactBest
CHECK_DEADLOCK FALSE

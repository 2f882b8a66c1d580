SPECIFICATION Spec
CONSTANTS MAXN = 4 VALS = {0, 1, 3} NMAX = 2 BUG = "order"
INVARIANTS InvMixed
CHECK_DEADLOCK FALSE

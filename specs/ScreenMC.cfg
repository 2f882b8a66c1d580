SPECIFICATION Spec
CONSTANTS BUG = "none" W = 3 H = 1 FULL = TRUE SYMS = {" ", "a", "W"} MODS = {{}, {0}}
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS BUG = "none" W = 5 H = 1 FULL = FALSE SYMS = {" ", "a", "W"} MODS = {{}, {1}}
INVARIANT Inv
CHECK_DEADLOCK FALSE

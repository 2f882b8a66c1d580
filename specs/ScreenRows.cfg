SPECIFICATION Spec
CONSTANTS BUG = "none" W = 2 H = 2 FULL = TRUE SYMS = {" ", "a", "W"} MODS = {{}}
INVARIANT Inv
CHECK_DEADLOCK FALSE

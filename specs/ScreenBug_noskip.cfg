SPECIFICATION Spec
CONSTANTS BUG = "noskip" W = 4 H = 1 FULL = TRUE SYMS = {" ", "a", "W"} MODS = {{}}
INVARIANT Inv
CHECK_DEADLOCK FALSE

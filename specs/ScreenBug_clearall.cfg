SPECIFICATION Spec
CONSTANTS BUG = "clearall" W = 5 H = 1 FULL = FALSE SYMS = {" ", "a", "W"} MODS = {{}}
INVARIANT Inv
CHECK_DEADLOCK FALSE

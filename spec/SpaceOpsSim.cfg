CONSTANTS NObj = 2 NSpace = 3 MaxLen = 12 Whats = {"lin", "vec", "vecu", "mat", "matu", "both", "mass", "disp", "sol", "full"} Small = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE

CONSTANTS NTerm = 4 MaxSum = 4 MaxLen = 14 MaxOn = 3 Whats = {0, 1, 2, 3, 4, 5} Small = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE

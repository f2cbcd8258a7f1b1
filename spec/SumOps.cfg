CONSTANTS NTerm = 2 MaxSum = 2 MaxLen = 4 MaxOn = 2 Whats = {0, 1} Small = TRUE
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Frame Pure
CHECK_DEADLOCK FALSE

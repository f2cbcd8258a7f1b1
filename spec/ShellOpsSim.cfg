CONSTANTS MaxObj = 3 MaxLen = 18 Small = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE

CONSTANTS MaxObj = 4 MaxEv = 3 MaxLen = 14 MaxVer = 9 NPatch = 3 NGeo = 4 Small = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE

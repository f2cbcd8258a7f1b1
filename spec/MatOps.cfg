CONSTANTS MaxObj = 2 MaxEv = 1 MaxLen = 3 MaxVer = 2 NPatch = 2 NGeo = 2 Small = TRUE
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Frame Pure
CHECK_DEADLOCK FALSE

CONSTANTS NObj = 2 NSpace = 3 MaxLen = 4 Whats = {"vec", "mat"} Small = TRUE
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Frame Pure
CHECK_DEADLOCK FALSE

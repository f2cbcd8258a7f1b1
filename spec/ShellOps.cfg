CONSTANTS MaxObj = 2 MaxLen = 3 Small = TRUE
SPECIFICATION Spec
VIEW NoHist
INVARIANTS TypeOK
PROPERTIES Pure Frame Stays
CHECK_DEADLOCK FALSE

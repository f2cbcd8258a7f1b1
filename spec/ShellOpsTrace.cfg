CONSTANTS MaxObj = 3 MaxLen = 18 Small = FALSE
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

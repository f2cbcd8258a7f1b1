SPECIFICATION OSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

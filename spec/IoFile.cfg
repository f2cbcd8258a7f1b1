INIT Init
NEXT Next
INVARIANT FileEmit
CHECK_DEADLOCK FALSE

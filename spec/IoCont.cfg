INIT Init
NEXT Next
INVARIANT ContEmit
CHECK_DEADLOCK FALSE

INIT IInit
NEXT INext
INVARIANT IEmit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT FactoryEmit
CHECK_DEADLOCK FALSE

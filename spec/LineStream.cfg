INIT Init
NEXT Next
CONSTANT L = 3
INVARIANT Recovers
CHECK_DEADLOCK FALSE

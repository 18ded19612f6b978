INIT TreeInit
NEXT TreeNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE

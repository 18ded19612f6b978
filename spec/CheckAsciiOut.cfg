INIT TreeInit
NEXT TreeNext
INVARIANT Conforms
CONSTANT Flatten = FALSE
CHECK_DEADLOCK FALSE

INIT TreeInit
NEXT TreeNext
INVARIANT Conforms
CONSTANT Flatten = TRUE
CHECK_DEADLOCK FALSE

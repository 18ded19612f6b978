INIT Init
NEXT Next
CONSTANT L = 4
INVARIANTS Conforms AtMostOncePerLine NoByteTwice
CHECK_DEADLOCK FALSE

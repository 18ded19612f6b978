INIT Init
NEXT Next
CONSTANT L = 5
INVARIANTS Conforms AtMostOncePerLine NoByteTwice
CHECK_DEADLOCK FALSE

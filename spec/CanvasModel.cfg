SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK OnlyDrawn
PROPERTIES PaddingKept Clipped
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS MeaningKept CleanTwice OverlayOK
PROPERTY Accepted
CHECK_DEADLOCK FALSE

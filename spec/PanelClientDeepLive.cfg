SPECIFICATION Spec
CONSTANTS
  MaxConns = 2
  Streams <- StreamsQ
  Subs <- SubsD
  Wait = TRUE
INVARIANTS Delivery DeliveryEnd Callbacks CancelFlag Submissions Contained NothingLeft
PROPERTIES Returns BrokenDrops SubmitsAll
CHECK_DEADLOCK FALSE

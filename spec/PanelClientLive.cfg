SPECIFICATION Spec
CONSTANTS
  MaxConns = 1
  Streams <- StreamsQ
  Subs <- SubsQ
  Wait = TRUE
INVARIANTS Delivery DeliveryEnd Callbacks CancelFlag Submissions Contained NothingLeft
PROPERTIES Returns BrokenDrops SubmitsAll
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxConns = 2
  Streams <- StreamsD
  Subs <- None
  Wait = TRUE
INVARIANTS Delivery DeliveryEnd Callbacks CancelFlag Submissions Contained NothingLeft

CHECK_DEADLOCK FALSE

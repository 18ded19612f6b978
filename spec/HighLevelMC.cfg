SPECIFICATION Spec
CONSTANTS
  Streams <- One
  Feedback = 2
  Qin = 1
  Qout = 1
  Net = 1
  Outside = 0
  Coupled = FALSE
INVARIANTS Conforms NotAfter
PROPERTY Stands

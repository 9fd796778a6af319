SPECIFICATION Spec
CONSTANTS
  What = "doc"
  Emit = TRUE
  Big = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

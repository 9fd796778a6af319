SPECIFICATION Spec
CONSTANTS
  What = "doc"
  Emit = TRUE
  Big = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

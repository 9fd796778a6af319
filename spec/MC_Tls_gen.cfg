SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Big = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

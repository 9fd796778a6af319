SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Big = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

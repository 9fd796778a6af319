SPECIFICATION Spec
CONSTANTS
  What = "opts"
  Emit = TRUE
  Big = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

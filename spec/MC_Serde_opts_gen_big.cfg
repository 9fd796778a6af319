SPECIFICATION Spec
CONSTANTS
  What = "opts"
  Emit = TRUE
  Big = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  What = "view"
  MaxLen = 6
  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  What = "view"
  MaxLen = 8
  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

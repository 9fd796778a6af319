SPECIFICATION Spec
CONSTANTS
  What = "ctcp"
  MaxLen = 6
  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

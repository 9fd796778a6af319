SPECIFICATION Spec
CONSTANTS
  What = "ctcp"
  MaxLen = 4
  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

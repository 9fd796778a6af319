SPECIFICATION Spec
CONSTANTS MaxLines = 8  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

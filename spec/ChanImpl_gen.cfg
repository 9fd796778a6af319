SPECIFICATION Spec
CONSTANTS N = 2  Spurious = 1  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

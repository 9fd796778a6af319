SPECIFICATION Spec
CONSTANTS MaxLines = 9  Emit = TRUE  Kind = "any"  Small = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

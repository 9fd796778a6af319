SPECIFICATION Spec
CONSTANTS MaxLines = 99  Emit = TRUE  Kind = "session"  Small = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

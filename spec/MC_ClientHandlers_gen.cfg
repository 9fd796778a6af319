SPECIFICATION Spec
CONSTANTS MaxOps = 9  Emit = TRUE  Kind = "handlers"

INVARIANTS Emitted RunConverges
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 10  Emit = TRUE  Kind = "time"

INVARIANTS Emitted RunConverges
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 12  NKeys = 4  Emit = TRUE  Kind = "tags"
INVARIANTS Refines Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 12  NKeys = 4  Emit = TRUE  Kind = "cap"
INVARIANTS Refines Emitted
CHECK_DEADLOCK FALSE

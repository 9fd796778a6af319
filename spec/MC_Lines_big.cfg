CONSTANTS Emit = FALSE  MaxTok = 5  Seps = 2
SPECIFICATION Spec
INVARIANTS Positions Emitted
CHECK_DEADLOCK FALSE

CONSTANTS Emit = FALSE  MaxTok = 4  Seps = 2
SPECIFICATION Spec
INVARIANTS Positions Emitted
CHECK_DEADLOCK FALSE

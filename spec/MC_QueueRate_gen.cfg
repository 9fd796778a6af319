SPECIFICATION SpecRate
CONSTANTS MaxOps = 16  Emit = TRUE
INVARIANTS RateBound ExactWait Emitted
CHECK_DEADLOCK FALSE

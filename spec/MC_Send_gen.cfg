CONSTANTS Emit = TRUE  MaxSteps = 3
SPECIFICATION Spec
INVARIANTS Exactly Stable OnlyOne Emitted
CHECK_DEADLOCK FALSE

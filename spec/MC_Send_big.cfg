CONSTANTS Emit = FALSE  MaxSteps = 4
SPECIFICATION Spec
INVARIANTS Exactly Stable OnlyOne Emitted
CHECK_DEADLOCK FALSE

CONSTANTS Emit = FALSE  MaxSteps = 3
SPECIFICATION Spec
INVARIANTS Exactly Stable OnlyOne Emitted
CHECK_DEADLOCK FALSE

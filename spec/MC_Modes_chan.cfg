SPECIFICATION Spec
CONSTANTS What = "chan"  MaxOps = 0  MaxLen = 7  Emit = FALSE
VIEW View
INVARIANTS TextTyped
CHECK_DEADLOCK FALSE

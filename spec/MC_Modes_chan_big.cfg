SPECIFICATION Spec
CONSTANTS What = "chan"  MaxOps = 0  MaxLen = 9  Emit = FALSE
VIEW View
INVARIANTS TextTyped
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS What = "chan"  MaxOps = 0  MaxLen = 7  Emit = TRUE
VIEW View
INVARIANTS TextTyped Emitted
CHECK_DEADLOCK FALSE

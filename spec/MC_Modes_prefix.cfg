SPECIFICATION Spec
CONSTANTS What = "prefix"  MaxOps = 0  MaxLen = 7  Emit = FALSE
VIEW View
INVARIANTS Bijective StatusWins
CHECK_DEADLOCK FALSE

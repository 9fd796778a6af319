SPECIFICATION Spec
CONSTANTS What = "prefix"  MaxOps = 0  MaxLen = 8  Emit = FALSE
VIEW View
INVARIANTS Bijective StatusWins
CHECK_DEADLOCK FALSE

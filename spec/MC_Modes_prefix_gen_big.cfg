SPECIFICATION Spec
CONSTANTS What = "prefix"  MaxOps = 0  MaxLen = 7  Emit = TRUE
VIEW View
INVARIANTS Bijective StatusWins Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxPieces = 5  Limit = 6  Emit = FALSE  MaxBlocks = 1
VIEW View
INVARIANTS Independent
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxPieces = 2  Limit = 8703  Emit = TRUE  MaxBlocks = 2
INVARIANTS Independent Emitted
CHECK_DEADLOCK FALSE

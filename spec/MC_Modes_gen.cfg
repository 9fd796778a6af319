SPECIFICATION Spec
CONSTANTS What = "hist"  MaxOps = 8  MaxLen = 0  Emit = TRUE
INVARIANTS TypesDisjoint Emitted
CHECK_DEADLOCK FALSE

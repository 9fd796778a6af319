SPECIFICATION Spec
CONSTANTS What = "hist"  MaxOps = 99  MaxLen = 0  Emit = FALSE
VIEW View
INVARIANTS TypesDisjoint RoundTrip
CHECK_DEADLOCK FALSE

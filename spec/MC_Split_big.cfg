SPECIFICATION Spec
CONSTANTS MaxLen = 3  MaxOps = 6  Emit = FALSE
INVARIANTS ClaimRight Within Nested Emitted
VIEW View
CHECK_DEADLOCK FALSE

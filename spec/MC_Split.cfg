SPECIFICATION Spec
CONSTANTS MaxLen = 2  MaxOps = 5  Emit = FALSE
INVARIANTS ClaimRight Within Nested Emitted
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 4  MaxOps = 8  Emit = TRUE
INVARIANTS ClaimRight Within Nested Emitted

CHECK_DEADLOCK FALSE

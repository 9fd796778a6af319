SPECIFICATION Spec
CONSTANT Emit = TRUE
CONSTANT Big = FALSE
INVARIANTS RoundTrip OneLine Budget Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Emit = TRUE
CONSTANT Big = TRUE
INVARIANTS RoundTrip OneLine Budget Emitted
CHECK_DEADLOCK FALSE

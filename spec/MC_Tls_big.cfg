SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Big = TRUE
INVARIANTS NeverClear Authentic Possession NoUnknownRoots NotShown
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Big = FALSE
INVARIANTS NeverClear Authentic Possession NoUnknownRoots NotShown
CHECK_DEADLOCK FALSE

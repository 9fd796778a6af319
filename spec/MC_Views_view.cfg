SPECIFICATION Spec
CONSTANTS
  What = "view"
  MaxLen = 6
  Emit = FALSE
INVARIANTS Says Dual Reparse
CHECK_DEADLOCK FALSE

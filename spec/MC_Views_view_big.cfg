SPECIFICATION Spec
CONSTANTS
  What = "view"
  MaxLen = 8
  Emit = FALSE
INVARIANTS Says Dual Reparse
CHECK_DEADLOCK FALSE

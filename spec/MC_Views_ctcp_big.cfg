SPECIFICATION Spec
CONSTANTS
  What = "ctcp"
  MaxLen = 6
  Emit = FALSE
INVARIANTS Says Dual Reparse
CHECK_DEADLOCK FALSE

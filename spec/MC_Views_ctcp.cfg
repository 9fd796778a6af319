SPECIFICATION Spec
CONSTANTS
  What = "ctcp"
  MaxLen = 4
  Emit = FALSE
INVARIANTS Says Dual Reparse
CHECK_DEADLOCK FALSE

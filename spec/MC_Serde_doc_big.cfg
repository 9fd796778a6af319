SPECIFICATION Spec
CONSTANTS
  What = "doc"
  Emit = FALSE
  Big = TRUE
INVARIANTS LoadedGood LoadedWire OptsGood
CHECK_DEADLOCK FALSE

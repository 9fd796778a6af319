SPECIFICATION Spec
CONSTANTS
  What = "opts"
  Emit = FALSE
  Big = TRUE
INVARIANTS LoadedGood LoadedWire OptsGood
CHECK_DEADLOCK FALSE

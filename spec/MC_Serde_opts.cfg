SPECIFICATION Spec
CONSTANTS
  What = "opts"
  Emit = FALSE
  Big = FALSE
INVARIANTS LoadedGood LoadedWire OptsGood
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  What = "doc"
  Emit = FALSE
  Big = FALSE
INVARIANTS LoadedGood LoadedWire OptsGood
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3  MaxOps = 3  MaxH = 2  Ref = FALSE  RelDrop = TRUE  AcqDrop = TRUE  AcqTake = TRUE  Emit = FALSE
INVARIANTS NoRace NoLateUse OnceOnly NoLeak Alone 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 2  MaxOps = 3  MaxH = 2  Ref = TRUE  RelDrop = TRUE  AcqDrop = TRUE  AcqTake = TRUE  Emit = FALSE
INVARIANTS NoRace NoLateUse OnceOnly NoLeak Alone 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3  MaxOps = 2  MaxH = 2  Ref = TRUE  RelDrop = TRUE  AcqDrop = TRUE  AcqTake = TRUE  Emit = FALSE
INVARIANTS NoRace NoLateUse OnceOnly NoLeak Alone 
CHECK_DEADLOCK FALSE

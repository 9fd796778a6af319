SPECIFICATION Spec
CONSTANTS N = 3  MaxOps = 4  MaxH = 2  Ref = TRUE  RelDrop = TRUE  AcqDrop = TRUE  AcqTake = TRUE  Emit = TRUE
INVARIANTS NoRace NoLateUse OnceOnly NoLeak Alone Emitted
CHECK_DEADLOCK FALSE

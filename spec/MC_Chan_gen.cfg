SPECIFICATION SpecEmit
CONSTANTS Size = 2  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

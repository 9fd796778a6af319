SPECIFICATION SpecEmit
CONSTANTS Size = 3  Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE

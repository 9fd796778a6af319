SPECIFICATION Spec
CONSTANTS N = 2  Spurious = 2  Emit = FALSE
INVARIANTS MemorySafe AtMostOne ExactlyOnce NothingLost
PROPERTIES Finishes
VIEW View
CHECK_DEADLOCK TRUE

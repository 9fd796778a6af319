SPECIFICATION Spec
CONSTANTS Size = 2  Emit = FALSE
INVARIANTS OneOk ReceivedSent EmptyHanded Accounted
PROPERTIES Finishes
CHECK_DEADLOCK TRUE

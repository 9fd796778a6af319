SPECIFICATION Spec
CONSTANTS Size = 1  Emit = FALSE
INVARIANTS OneOk ReceivedSent EmptyHanded Accounted
PROPERTIES Finishes
CHECK_DEADLOCK TRUE

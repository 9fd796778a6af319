SPECIFICATION Spec
CONSTANTS MaxOps = 7  MaxPool = 6  MaxLen = 2  Wide = TRUE  Emit = TRUE
INVARIANTS TypesHold SecretsStay Hidden LossyIsUtf8 EscapeUndone CaseMapsSettle Emitted

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 3  MaxPool = 3  MaxLen = 1  Wide = FALSE  Emit = FALSE
INVARIANTS TypesHold SecretsStay Hidden LossyIsUtf8 EscapeUndone CaseMapsSettle Emitted
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 4  MaxPool = 3  MaxLen = 2  Wide = FALSE  Emit = FALSE
INVARIANTS TypesHold SecretsStay Hidden LossyIsUtf8 EscapeUndone CaseMapsSettle Emitted
VIEW View
CHECK_DEADLOCK FALSE

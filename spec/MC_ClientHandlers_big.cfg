SPECIFICATION Spec
CONSTANTS MaxOps = 6  Emit = FALSE  Kind = "handlers"
VIEW View
INVARIANTS IdsDistinct FreshId UserOrder NoRepeat OncePerLine RunConverges TimeoutsRight ResetFresh
CHECK_DEADLOCK FALSE

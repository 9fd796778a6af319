SPECIFICATION Spec
CONSTANTS MaxOps = 4  Emit = FALSE  Kind = "handlers"
VIEW View
INVARIANTS IdsDistinct FreshId UserOrder NoRepeat OncePerLine RunConverges TimeoutsRight ResetFresh
CHECK_DEADLOCK FALSE

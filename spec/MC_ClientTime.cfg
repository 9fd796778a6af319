SPECIFICATION Spec
CONSTANTS MaxOps = 6  Emit = FALSE  Kind = "time"
VIEW View
INVARIANTS IdsDistinct FreshId UserOrder NoRepeat OncePerLine RunConverges TimeoutsRight ResetFresh
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLines = 2  Emit = FALSE  Kind = "any"  Small = TRUE
VIEW View
INVARIANTS AccountTracks LoginRequired SuccessLoggedIn NoLoginOnlyIfNeeded EndOnce EndClean PongPerPing MissingExact SuccessComplete MechOrder NeverRetry NickOrder NotAfterInvalid NoNicksTruly
CHECK_DEADLOCK FALSE

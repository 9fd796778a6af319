SPECIFICATION Spec
CONSTANTS MaxLines = 4  Emit = FALSE  Kind = "any"  Small = TRUE
VIEW View
INVARIANTS AccountTracks LoginRequired SuccessLoggedIn NoLoginOnlyIfNeeded EndOnce EndClean PongPerPing MissingExact SuccessComplete MechOrder NeverRetry NickOrder NotAfterInvalid NoNicksTruly
CHECK_DEADLOCK FALSE

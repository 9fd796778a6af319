SPECIFICATION Spec
CONSTANTS MaxLines = 99  Emit = FALSE  Kind = "session"  Small = TRUE
VIEW View
INVARIANTS AccountTracks LoginRequired SuccessLoggedIn NoLoginOnlyIfNeeded EndOnce EndClean PongPerPing MissingExact SuccessComplete MechOrder NeverRetry NickOrder NotAfterInvalid NoNicksTruly SessionOutcome SessionNoStall
CHECK_DEADLOCK TRUE

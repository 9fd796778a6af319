SPECIFICATION Spec
CONSTANTS MaxLines = 3  Emit = FALSE
INVARIANTS Pongs Replies NoLoop AboutMe LenCovers OwnKept EndsRight ListenerStays
VIEW View
CHECK_DEADLOCK FALSE

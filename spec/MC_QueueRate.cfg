SPECIFICATION SpecRate
CONSTANTS MaxOps = 9  Emit = FALSE
VIEW View
INVARIANTS RateBound Pessimistic ExactWait Fifo
CHECK_DEADLOCK FALSE

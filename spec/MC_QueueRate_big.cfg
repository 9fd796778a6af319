SPECIFICATION SpecRate
CONSTANTS MaxOps = 11  Emit = FALSE
VIEW View
INVARIANTS RateBound Pessimistic ExactWait Fifo
CHECK_DEADLOCK FALSE

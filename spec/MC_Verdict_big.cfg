CONSTANTS N = 3
MaxAsk = 4
Hasty = FALSE
SPECIFICATION Spec
INVARIANTS NeverWrong Remembers
CHECK_DEADLOCK FALSE

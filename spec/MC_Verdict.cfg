CONSTANTS N = 2
MaxAsk = 3
Hasty = FALSE
SPECIFICATION Spec
INVARIANTS NeverWrong Remembers
CHECK_DEADLOCK FALSE

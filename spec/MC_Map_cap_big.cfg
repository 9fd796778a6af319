SPECIFICATION Spec
CONSTANTS MaxOps = 11  NKeys = 4  Emit = FALSE  Kind = "cap"
VIEW View
INVARIANTS Refines UniqueKeys PrefixSorted ClosedSorted
CHECK_DEADLOCK FALSE

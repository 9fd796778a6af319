SPECIFICATION Spec
CONSTANTS MaxOps = 8  NKeys = 4  Emit = FALSE  Kind = "tags"
VIEW View
INVARIANTS Refines UniqueKeys PrefixSorted ClosedSorted
CHECK_DEADLOCK FALSE

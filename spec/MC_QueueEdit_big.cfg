SPECIFICATION SpecEdit
CONSTANTS MaxOps = 6  Emit = FALSE
VIEW View
INVARIANTS GuardsNested ExactWait
CHECK_DEADLOCK FALSE

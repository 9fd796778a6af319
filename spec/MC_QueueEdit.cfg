SPECIFICATION SpecEdit
CONSTANTS MaxOps = 5  Emit = FALSE
VIEW View
INVARIANTS GuardsNested ExactWait
CHECK_DEADLOCK FALSE

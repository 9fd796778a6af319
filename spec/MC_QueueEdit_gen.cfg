SPECIFICATION SpecEdit
CONSTANTS MaxOps = 14  Emit = TRUE
INVARIANTS GuardsNested Emitted
CHECK_DEADLOCK FALSE

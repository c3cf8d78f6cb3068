CONSTANTS Pages = {1} MaxUp = 2 MaxDown = 2 MaxLogs = 1 MaxOpen = 1 MaxOps = 0 Emit = FALSE Gone = TRUE
SPECIFICATION Spec
INVARIANTS Ordered
PROPERTIES Refines Linked Done
CHECK_DEADLOCK FALSE

CONSTANTS Pages = {1} MaxUp = 3 MaxDown = 3 MaxLogs = 2 MaxOpen = 2 MaxOps = 0 Emit = FALSE Gone = TRUE
SPECIFICATION Spec
INVARIANTS Ordered
PROPERTIES Refines Linked Done
CHECK_DEADLOCK FALSE

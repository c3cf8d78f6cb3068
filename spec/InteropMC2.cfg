CONSTANTS Pages = {1, 2} MaxUp = 1 MaxDown = 2 MaxLogs = 1 MaxOpen = 2 MaxOps = 0 Emit = FALSE Gone = FALSE
SPECIFICATION Spec
INVARIANTS Ordered
PROPERTIES Refines Linked Done
CHECK_DEADLOCK FALSE

CONSTANTS Template = "line" Emit = FALSE
SPECIFICATION Spec
INVARIANTS Decides Rejects
CHECK_DEADLOCK FALSE

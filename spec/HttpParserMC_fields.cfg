CONSTANTS Template = "fields" Emit = FALSE
SPECIFICATION Spec
INVARIANTS Decides Rejects
CHECK_DEADLOCK FALSE

CONSTANTS Template = "line" Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

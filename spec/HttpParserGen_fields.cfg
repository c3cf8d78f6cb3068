CONSTANTS Template = "fields" Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

CONSTANTS Pages = {1, 2} MaxUp = 4 MaxDown = 4 MaxLogs = 3 MaxOpen = 4 MaxOps = 16 Emit = TRUE Gone = TRUE
SPECIFICATION Spec
INVARIANTS EmitFinal
CHECK_DEADLOCK FALSE

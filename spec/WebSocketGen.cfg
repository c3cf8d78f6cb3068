CONSTANTS Scripts = {1, 2, 3, 4, 5, 6} MaxSends = 2 MaxOps = 24 Emit = TRUE Cuts = {1, 2, 3, 4, 7, 11} Faults = {"fin", "reset", "stop", "destroy"}
SPECIFICATION Spec
INVARIANTS Delivered SentInOrder ToldOnce EmitFinal
CHECK_DEADLOCK FALSE

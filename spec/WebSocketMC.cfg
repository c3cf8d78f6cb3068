CONSTANTS Scripts = {1, 2, 3, 4, 5, 6} MaxSends = 2 MaxOps = 0 Emit = FALSE Cuts = {1, 2, 5} Faults = {"fin", "reset", "stop", "destroy"}
SPECIFICATION Spec
INVARIANTS Delivered SentInOrder ToldOnce Idle
PROPERTIES Ending Leaving
CHECK_DEADLOCK FALSE

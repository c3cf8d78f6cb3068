CONSTANTS Clients = {1, 2, 3} Kinds = {"ok", "up", "bad"} MaxOps = 26 MaxFaults = 2 Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoMix EmitFinal
CHECK_DEADLOCK FALSE

CONSTANTS Clients = {1} Kinds = {"ok", "up", "bad"} MaxOps = 9 MaxFaults = 9 Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoMix EmitFinal
CHECK_DEADLOCK FALSE

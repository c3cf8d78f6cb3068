CONSTANTS Clients = {1, 2} Kinds = {"ok", "up", "bad"} MaxOps = 1000 MaxFaults = 1000 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoMix Complete HandedOver Settles
PROPERTIES Eventually
CHECK_DEADLOCK FALSE

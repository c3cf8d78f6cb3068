CONSTANTS Clients = {1} Kinds = {"hs", "close"} MaxRecv = 2 MaxApp = 2 MaxLogs = 2 MaxConn = 2 MaxOps = 0 Emit = FALSE Faults = {"reset"}
SPECIFICATION Spec
INVARIANTS AckFirst Private LogsOnce RanOnce StartsOnce
PROPERTIES Silence 
CHECK_DEADLOCK FALSE

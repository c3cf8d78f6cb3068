CONSTANTS Clients = {1} Kinds = {"hs", "run", "unknown", "close"} MaxRecv = 3 MaxApp = 2 MaxLogs = 2 MaxConn = 1 MaxOps = 0 Emit = FALSE Faults = {"reset"}
SPECIFICATION Spec
INVARIANTS AckFirst Private LogsOnce RanOnce StartsOnce
PROPERTIES Silence Serves Answered
CHECK_DEADLOCK FALSE

CONSTANTS Clients = {1, 2} Kinds = {"hs", "run", "close"} MaxRecv = 2 MaxApp = 2 MaxLogs = 1 MaxConn = 1 MaxOps = 0 Emit = FALSE Faults = {}
SPECIFICATION Spec
INVARIANTS AckFirst Private LogsOnce RanOnce StartsOnce
PROPERTIES Silence Serves
CHECK_DEADLOCK FALSE

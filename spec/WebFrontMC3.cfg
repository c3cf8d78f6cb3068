CONSTANTS Clients = {1} Kinds = {"hs", "run", "boom", "unknown", "misfit"} MaxRecv = 5 MaxApp = 0 MaxLogs = 0 MaxConn = 1 MaxOps = 0 Emit = FALSE Faults = {"reset"}
SPECIFICATION Spec
INVARIANTS AckFirst Private LogsOnce RanOnce StartsOnce
PROPERTIES Silence Serves Answered
CHECK_DEADLOCK FALSE

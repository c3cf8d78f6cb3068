CONSTANTS Clients = {1, 2, 3} Kinds = {"hs", "run", "boom", "unknown", "misfit", "missing", "broken", "junk", "text", "close"} MaxRecv = 7 MaxApp = 100 MaxLogs = 100 MaxConn = 2 MaxOps = 36 Emit = TRUE Faults = {"reset", "fin"}
SPECIFICATION Spec
INVARIANTS AckFirst Private LogsOnce RanOnce StartsOnce EmitFinal
CHECK_DEADLOCK FALSE

CONSTANTS MaxSinks = 2 MaxOps = 5
SPECIFICATION Spec
INVARIANTS Each OnlyUp
VIEW View
CHECK_DEADLOCK FALSE

CONSTANTS MaxSinks = 5 MaxOps = 25
SPECIFICATION Spec
INVARIANTS Each OnlyUp EmitFinal
CHECK_DEADLOCK FALSE

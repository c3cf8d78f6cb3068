CONSTANTS Sizes = {0, 1, 2, 5} MaxOps = 14 MaxReaders = 3 Layers = 3
SPECIFICATION Spec
INVARIANTS Faithful FirstWins EmitFinal
CHECK_DEADLOCK FALSE

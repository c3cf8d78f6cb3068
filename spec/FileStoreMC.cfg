CONSTANTS Sizes = {0, 1, 2, 5} MaxOps = 5 MaxReaders = 2 Layers = 2
SPECIFICATION Spec
INVARIANTS Faithful FirstWins
VIEW View
CHECK_DEADLOCK FALSE

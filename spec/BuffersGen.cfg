CONSTANTS Slots = {1, 2, 3} Sizes = {1, 2, 4} Counts = {0, 1, 3, 8} Steps = {0, 1, 3, 5, 20} MaxOps = 9
SPECIFICATION Spec
INVARIANTS Inside Once EmitFinal
CHECK_DEADLOCK FALSE

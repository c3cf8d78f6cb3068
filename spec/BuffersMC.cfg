CONSTANTS Slots = {1, 2} Sizes = {1, 4} Counts = {0, 1, 3} Steps = {0, 1, 5, 20} MaxOps = 4
SPECIFICATION Spec
INVARIANTS Inside Once
VIEW View
CHECK_DEADLOCK FALSE

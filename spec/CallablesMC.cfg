CONSTANTS Slots = {1, 2} Types = {"i", "s"} Results = {"void", "i"} MaxOps = 3
SPECIFICATION Spec
INVARIANT OnceOrRefused
VIEW View
CHECK_DEADLOCK FALSE

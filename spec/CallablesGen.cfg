CONSTANTS Slots = {1, 2, 3} Types = {"i", "s"} Results = {"void", "i"} MaxOps = 14
SPECIFICATION Spec
INVARIANTS OnceOrRefused EmitFinal
CHECK_DEADLOCK FALSE

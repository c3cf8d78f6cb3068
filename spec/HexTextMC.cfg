CONSTANT MaxLen = 50
SPECIFICATION Spec
INVARIANTS ReadBack LineCount Addresses Shape Empty
CHECK_DEADLOCK FALSE

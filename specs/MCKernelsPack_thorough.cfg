CONSTANTS Values = {1, 2, 4, 8, 15}  Bad = 0
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE

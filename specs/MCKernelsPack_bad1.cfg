CONSTANTS Values = {1, 15}  Bad = 1
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE

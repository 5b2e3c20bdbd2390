CONSTANTS Values = {9}  Bad = 0
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE

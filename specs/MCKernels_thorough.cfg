CONSTANTS N = 80  Bad = 0
SPECIFICATION Spec
INVARIANTS Inside Once Whole
CHECK_DEADLOCK FALSE

CONSTANTS N = 26  Bad = 0
SPECIFICATION Spec
INVARIANTS Inside Once Whole
CHECK_DEADLOCK FALSE

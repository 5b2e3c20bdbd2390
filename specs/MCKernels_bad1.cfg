CONSTANTS N = 9  Bad = 1
SPECIFICATION Spec
INVARIANTS Inside Once Whole
CHECK_DEADLOCK FALSE

CONSTANTS N = 9  Bad = 2
SPECIFICATION Spec
INVARIANTS Inside Once Whole
CHECK_DEADLOCK FALSE

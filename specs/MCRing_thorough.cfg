CONSTANTS N = 8  Depth = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS AtMostOnce AllDone
CHECK_DEADLOCK FALSE

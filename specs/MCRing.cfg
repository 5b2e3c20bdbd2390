CONSTANTS N = 5  Depth = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS AtMostOnce AllDone
CHECK_DEADLOCK FALSE

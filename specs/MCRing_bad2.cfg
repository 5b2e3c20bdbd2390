CONSTANTS N = 4  Depth = 2  Bad = 2
SPECIFICATION Spec
INVARIANTS AtMostOnce AllDone
CHECK_DEADLOCK FALSE

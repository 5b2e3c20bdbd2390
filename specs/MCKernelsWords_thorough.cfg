CONSTANTS B = 16  N = 30  Bad = 0
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE

CONSTANTS B = 8  N = 20  Bad = 3
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE

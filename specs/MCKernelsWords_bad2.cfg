CONSTANTS B = 8  N = 20  Bad = 2
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE

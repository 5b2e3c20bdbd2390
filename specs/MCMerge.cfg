SPECIFICATION Spec
CONSTANTS
 N = 3
 R = 1
 Shared = 1
 Bad = 0
INVARIANTS Faithful Drained
CHECK_DEADLOCK FALSE

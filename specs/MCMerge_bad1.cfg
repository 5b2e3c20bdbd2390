SPECIFICATION Spec
CONSTANTS
 N = 3
 R = 2
 Shared = 1
 Bad = 1
INVARIANTS Faithful Drained
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 2
 L = 1
 Bad = 0
INVARIANTS Same Drained Stable
CHECK_DEADLOCK FALSE

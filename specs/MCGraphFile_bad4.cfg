SPECIFICATION Spec
CONSTANTS
 N = 2
 K = 2
 L = 1
 Bad = 4
INVARIANTS Same Drained Stable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 4
 Th = 3
 R = 2
 Slack = 3
 Bad = 0
INVARIANTS Shape Finished
CHECK_DEADLOCK FALSE

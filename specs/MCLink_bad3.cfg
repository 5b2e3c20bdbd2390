SPECIFICATION Spec
CONSTANTS
 N = 4
 Th = 2
 R = 1
 Slack = 2
 Bad = 3
INVARIANTS Shape Finished
CHECK_DEADLOCK FALSE

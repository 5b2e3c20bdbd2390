SPECIFICATION Spec
CONSTANTS
 N = 5
 Th = 2
 R = 1
 Slack = 2
 Bad = 0
INVARIANTS Shape Finished
CHECK_DEADLOCK FALSE

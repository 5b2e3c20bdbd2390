CONSTANTS Parts = 2  Rounds = 3  Bad = 1
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

CONSTANTS Parts = 2  Rounds = 3  Bad = 3
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

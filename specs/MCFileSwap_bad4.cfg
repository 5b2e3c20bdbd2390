CONSTANTS Parts = 2  Rounds = 3  Bad = 4
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

CONSTANTS Parts = 2  Rounds = 3  Bad = 2
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

CONSTANTS Parts = 2  Rounds = 4  Bad = 0
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

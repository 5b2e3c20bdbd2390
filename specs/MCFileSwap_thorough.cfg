CONSTANTS Parts = 6  Rounds = 30  Bad = 0
SPECIFICATION Spec
INVARIANTS AllOrNothing Reported Reader
CHECK_DEADLOCK FALSE

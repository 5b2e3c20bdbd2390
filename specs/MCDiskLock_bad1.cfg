CONSTANTS P = {1, 2, 3}
 Tries = 2
 Bad = 1
INIT Init
NEXT Next
INVARIANTS OneHandle OneCreation Somebody Free
CHECK_DEADLOCK FALSE

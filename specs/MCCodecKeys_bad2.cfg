CONSTANTS Wrong = 2 Digits = {0, 1, 2, 7, 8, 14, 15}
INIT Init
NEXT Next
INVARIANTS Numbers Keys Total
CHECK_DEADLOCK FALSE

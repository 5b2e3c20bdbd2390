CONSTANTS Wrong = 0 Digits = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
INIT Init
NEXT Next
INVARIANTS Numbers Keys Total
CHECK_DEADLOCK FALSE

CONSTANTS Wrong = 0 Texts = {"i2", "s1", "b0"} MaxMeta = 3
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE

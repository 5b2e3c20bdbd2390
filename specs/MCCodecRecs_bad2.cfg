CONSTANTS Wrong = 2 Texts = {"i2", "s", "s1", "b0"} MaxMeta = 2
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE

CONSTANTS MaxOps = 8
 Truncates = TRUE
 FrameSize = 3
 MaxCrash = 4
INIT Init
NEXT Next
INVARIANTS NothingLost Exactly Once Payloads
CHECK_DEADLOCK FALSE

CONSTANTS MaxOps = 16
 Truncates = TRUE
 FrameSize = 3
 MaxCrash = 6
INIT Init
NEXT Next
INVARIANTS NothingLost Exactly Once Payloads
CHECK_DEADLOCK FALSE

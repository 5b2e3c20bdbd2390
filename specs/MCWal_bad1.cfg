CONSTANTS MaxOps = 4
 Truncates = FALSE
 FrameSize = 3
 MaxCrash = 3
INIT Init
NEXT Next
INVARIANTS NothingLost Exactly Once Payloads
CHECK_DEADLOCK FALSE

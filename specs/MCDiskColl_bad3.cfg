CONSTANTS Batches = {1, 2, 3}
 Faults = 3
 Bad = 3
INIT Init
NEXT Next
INVARIANTS Published Visible Writable Once
CHECK_DEADLOCK FALSE

CONSTANTS Batches = {1, 2, 3, 4}
 Faults = 4
 Bad = 0
INIT Init
NEXT Next
INVARIANTS Published Visible Writable Once
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTRAINT Emit
INVARIANT Ordered
CHECK_DEADLOCK FALSE

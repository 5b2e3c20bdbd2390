INIT FInit
NEXT FNext
CHECK_DEADLOCK FALSE
INVARIANT Laws

INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
INVARIANTS OneRecordPerId CapOk NothingBeforeFirst

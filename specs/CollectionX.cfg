INIT XInit
NEXT XNext
CHECK_DEADLOCK FALSE
INVARIANTS OneRecordPerId CapOk NothingBeforeFirst

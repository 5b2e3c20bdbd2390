INIT GInit
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OneRecordPerId CapOk NothingBeforeFirst

CONSTANTS
  MIds = {"a", "b", "c"}
  MVecs = {0, 1}
  MDocs = {1}
  MCap = 4
  MBatch = 2
INIT MInit
NEXT MNext
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneRecordPerId CapOk NothingBeforeFirst Complement
PROPERTY Promises

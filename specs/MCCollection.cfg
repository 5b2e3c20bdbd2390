CONSTANTS
  MIds = {"a", "b"}
  MVecs = {0, 1}
  MDocs = {1, 2}
  MCap = 3
  MBatch = 2
INIT MInit
NEXT MNext
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneRecordPerId CapOk NothingBeforeFirst Complement
PROPERTY Promises

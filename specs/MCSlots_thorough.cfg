CONSTANTS Locked = TRUE  Writers = 2  Readers = 1  Ops = 3  N0 = 1  MaxId = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS Exclusive FreeOnce NothingLost HiddenMarked MarksExact CountExact CapCovers ReadRight
CHECK_DEADLOCK FALSE

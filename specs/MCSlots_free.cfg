CONSTANTS Locked = FALSE  Writers = 2  Readers = 1  Ops = 2  N0 = 0  MaxId = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS Exclusive FreeOnce NothingLost HiddenMarked MarksExact CountExact CapCovers ReadRight
CHECK_DEADLOCK FALSE

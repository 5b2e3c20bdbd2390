SPECIFICATION Spec
CONSTANTS
  Bad = 0
  Cap = 4
  MaxD = 2
  Ids = {1, 2, 3, 4, 5, 6}
  MaxOps = 9
  Dedup = TRUE
  Epochs = 3
  Width = 2
  Positions = 0
INVARIANTS Agrees Sorted Distinct Cursor Marks Words
CHECK_DEADLOCK FALSE

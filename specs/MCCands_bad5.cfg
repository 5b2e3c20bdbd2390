SPECIFICATION Spec
CONSTANTS
  Bad = 5
  Cap = 3
  MaxD = 1
  Ids = {1, 2, 3, 4, 5}
  MaxOps = 7
  Dedup = TRUE
  Epochs = 3
  Width = 2
  Positions = 0
INVARIANTS Agrees Sorted Distinct Cursor Marks Words
CHECK_DEADLOCK FALSE

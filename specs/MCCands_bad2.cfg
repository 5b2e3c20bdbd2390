SPECIFICATION Spec
CONSTANTS
  Bad = 2
  Cap = 3
  MaxD = 2
  Ids = {1, 2}
  MaxOps = 6
  Dedup = FALSE
  Epochs = 3
  Width = 2
  Positions = 0
INVARIANTS Agrees Sorted Distinct Cursor Marks Words
CHECK_DEADLOCK FALSE

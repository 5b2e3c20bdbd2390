SPECIFICATION Spec
CONSTANTS
  Bad = 0
  Cap = 1
  MaxD = 0
  Ids = {1}
  MaxOps = 13
  Dedup = FALSE
  Epochs = 4
  Width = 2
  Positions = 5
INVARIANTS Agrees Sorted Distinct Cursor Marks Words
CHECK_DEADLOCK FALSE

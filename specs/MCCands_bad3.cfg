SPECIFICATION Spec
CONSTANTS
  Bad = 3
  Cap = 1
  MaxD = 0
  Ids = {1}
  MaxOps = 9
  Dedup = FALSE
  Epochs = 3
  Width = 2
  Positions = 4
INVARIANTS Agrees Sorted Distinct Cursor Marks Words
CHECK_DEADLOCK FALSE

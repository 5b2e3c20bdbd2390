CONSTANTS
  WRONG = 3
  LINES = 1
  BYTES = 1
  BOTH = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Whole Single Inside Ranges Backwards Cut

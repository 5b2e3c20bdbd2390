CONSTANTS NSlots = 4  Hot = {1, 2}  MaxVal = 6  Bad = 0
SPECIFICATION Spec
INVARIANTS Right Room
CHECK_DEADLOCK FALSE

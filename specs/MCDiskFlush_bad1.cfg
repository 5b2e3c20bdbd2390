CONSTANTS NSlots = 3  Hot = {1, 2}  MaxVal = 4  Bad = 1
SPECIFICATION Spec
INVARIANTS Right Room
CHECK_DEADLOCK FALSE

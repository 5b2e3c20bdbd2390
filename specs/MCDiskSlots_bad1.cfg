CONSTANTS NSlots = 2  Labels = {1, 2}  MaxVec = 4  Searchers = {"a"}  Bad = 1
SPECIFICATION Spec
INVARIANTS Sound Complete OneSlotPerLabel NoStale Agrees
CHECK_DEADLOCK FALSE

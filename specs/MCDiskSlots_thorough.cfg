CONSTANTS NSlots = 3  Labels = {1, 2, 3}  MaxVec = 5  Searchers = {"a"}  Bad = 0
SPECIFICATION Spec
INVARIANTS Sound Complete OneSlotPerLabel NoStale Agrees
CHECK_DEADLOCK FALSE

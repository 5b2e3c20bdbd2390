CONSTANTS NSlots = 2  Labels = {1, 2}  MaxVec = 3  Searchers = {"a", "b"}  Bad = 0
SPECIFICATION Spec
INVARIANTS Sound Complete OneSlotPerLabel NoStale Agrees
CHECK_DEADLOCK FALSE

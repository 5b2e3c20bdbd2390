SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {1, 2}
  MaxOps = 3
  MaxCrash = 3
  MaxSnap = 4
  CutTail = TRUE
  FitCovers = TRUE
  Power = TRUE
  SyncCommit = TRUE
  SyncSnap = TRUE
  SyncFirst = TRUE
INVARIANTS NotStuck Recovered DurableWhenIdle OpsIncrease CurExists
CHECK_DEADLOCK FALSE

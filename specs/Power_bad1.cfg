SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {1}
  MaxOps = 3
  MaxCrash = 2
  MaxSnap = 4
  CutTail = TRUE
  FitCovers = TRUE
  Power = TRUE
  SyncCommit = FALSE
  SyncSnap = TRUE
  SyncFirst = TRUE
INVARIANTS NotStuck Recovered DurableWhenIdle OpsIncrease CurExists
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {1}
  MaxOps = 3
  MaxCrash = 2
  MaxSnap = 4
  CutTail = FALSE
  FitCovers = TRUE
  Power = FALSE
  SyncCommit = TRUE
  SyncSnap = TRUE
  SyncFirst = TRUE
INVARIANTS NotStuck Recovered DurableWhenIdle OpsIncrease CurExists
CHECK_DEADLOCK FALSE

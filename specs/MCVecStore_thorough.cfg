CONSTANTS
  Vals = {1, 2}
  Items = {"-", "a", "b", "c"}
  Cap = 5
  CountRefused = FALSE
  TakeFirst = FALSE
  CountTwice = FALSE
INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
INVARIANTS Agree Bounded Answered

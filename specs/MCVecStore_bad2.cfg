CONSTANTS
  Vals = {1, 2}
  Items = {"-", "a", "b"}
  Cap = 3
  CountRefused = FALSE
  TakeFirst = TRUE
  CountTwice = FALSE
INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
INVARIANTS Agree Bounded Answered

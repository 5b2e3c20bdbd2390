CONSTANTS Slots = {1, 2, 3}
 Items = {0, 1, 2}
 Vals = {1, 2}
 CountApart = FALSE
 KeepOldIndex = TRUE
 CheckOutside = FALSE
INIT Init
NEXT Next
INVARIANTS Same Counted ItemIdx FieldIdx
CHECK_DEADLOCK FALSE

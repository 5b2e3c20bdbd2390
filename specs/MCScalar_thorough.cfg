CONSTANTS Slots = {1, 2, 3, 4}
 Items = {0, 1, 2, 3}
 Vals = {1, 2}
 CountApart = FALSE
 KeepOldIndex = FALSE
 CheckOutside = FALSE
INIT Init
NEXT Next
INVARIANTS Same Counted ItemIdx FieldIdx
CHECK_DEADLOCK FALSE

CONSTANTS Cap = 2  Pages = {1, 2, 3}  Readers = {"r1"}  Writers = {"w1"}  MaxWrites = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS ReadRight Newest Bounded
CHECK_DEADLOCK FALSE

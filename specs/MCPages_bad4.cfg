CONSTANTS Cap = 1  Pages = {1, 2}  Readers = {"r1"}  Writers = {"w1"}  MaxWrites = 3  Bad = 4
SPECIFICATION Spec
INVARIANTS ReadRight Newest Bounded
CHECK_DEADLOCK FALSE

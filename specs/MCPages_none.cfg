CONSTANTS Cap = 0  Pages = {1, 2}  Readers = {"r1"}  Writers = {"w1", "w2"}  MaxWrites = 3  Bad = 0
SPECIFICATION Spec
INVARIANTS ReadRight Newest Bounded
CHECK_DEADLOCK FALSE

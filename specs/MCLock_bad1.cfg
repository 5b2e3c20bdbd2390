CONSTANTS
 Clients = {c1,c2,c3}
 Rounds = 2
 WRONG = "blind"
INIT Init
NEXT Next
INVARIANTS Exclusive Counted

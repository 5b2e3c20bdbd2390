CONSTANTS
 Clients = {c1,c2,c3}
 Rounds = 2
 WRONG = "over readers"
INIT Init
NEXT Next
INVARIANTS Exclusive Counted

CONSTANTS
 Clients = {c1,c2,c3,c4}
 Rounds = 2
 WRONG = ""
INIT Init
NEXT Next
INVARIANTS Exclusive Counted

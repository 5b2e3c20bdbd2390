CONSTANTS
 Clients = {c1,c2,c3,c4}
 Items = {i1,i2}
 Rounds = 2
 WRONG = ""
INIT Init
NEXT Next
INVARIANTS Exclusive InOrder NoneLost

CONSTANTS
 Clients = {c1,c2,c3}
 Items = {i1}
 Rounds = 2
 WRONG = "forgets line"
INIT Init
NEXT Next
INVARIANTS Exclusive InOrder NoneLost

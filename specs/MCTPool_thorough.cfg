CONSTANTS
 Workers = {w1,w2,w3}
 Clients = {c1,c2,c3}
 First = c1
 PerClient = 2
 WRONG = ""
INIT Init
NEXT Next
INVARIANTS Once WaitedAll Drained

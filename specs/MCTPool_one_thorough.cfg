CONSTANTS
 Workers = {w1,w2,w3,w4}
 Clients = {c1}
 First = c1
 PerClient = 6
 WRONG = ""
INIT Init
NEXT Next
INVARIANTS Once WaitedAll Drained

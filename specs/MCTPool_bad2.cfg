CONSTANTS
 Workers = {w1,w2}
 Clients = {c1}
 First = c1
 PerClient = 2
 WRONG = "stop drops"
INIT Init
NEXT Next
INVARIANTS Once WaitedAll Drained

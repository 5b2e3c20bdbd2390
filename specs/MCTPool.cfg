CONSTANTS
 Workers = {w1,w2}
 Clients = {c1,c2}
 First = c1
 PerClient = 2
 WRONG = ""
INIT Init
NEXT Next
INVARIANTS Once WaitedAll Drained

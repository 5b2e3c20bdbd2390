---------------------------- MODULE VecStoreTrace ----------------------------
EXTENDS VecStore, TLC, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"      -> kind' = e.kind /\ cap' = e.cap /\ metric' = e.metric /\ slots' = <<>> /\ live' = {} /\ item' = <<>> /\ lo' = <<>> /\ hi' = <<>>
    [] e.op = "fit"        -> Fit(e.vs, e.items, e.res)
    [] e.op = "insert"     -> Insert(e.v, e.item, e.res)
    [] e.op = "remove"     -> Remove(e.id, e.res)
    [] e.op = "removeitem" -> RemoveItem(e.item, e.res)
    [] e.op = "update"     -> Update(e.id, e.v, e.res)
    [] e.op = "reload"     -> UNCHANGED vvars
    [] e.op = "skip"       -> UNCHANGED vvars
    [] e.op = "state"      -> State(e) /\ UNCHANGED vvars
    [] e.op = "dists"      -> Dists(e) /\ UNCHANGED vvars
    [] e.op = "pair"       -> Pair(e) /\ UNCHANGED vvars
    [] OTHER -> FALSE
TInit == kind = "" /\ cap = 0 /\ metric = "" /\ slots = <<>> /\ live = {} /\ item = <<>> /\ lo = <<>> /\ hi = <<>> /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

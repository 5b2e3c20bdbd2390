----------------------------- MODULE FileOpsTrace -----------------------------
EXTENDS FileOps, Json, IOUtils
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == i = 1 /\ fs = [n \in Names |-> None] /\ eng = [ring |-> FALSE, short |-> 0]
Do(e) ==
  CASE e.op = "put" -> Put(e) [] e.op = "swap" -> Swap(e) [] e.op = "move" -> Move(e)
    [] e.op = "syncdir" -> SyncDir(e) [] e.op = "syncfile" -> SyncFile(e) [] e.op = "trunc" -> Trunc(e)
    [] e.op = "mkdir" -> Mkdir(e) [] e.op = "link" -> Link(e)
    [] e.op = "prefix" -> Prefix(e) [] e.op = "bounded" -> Bounded(e) [] e.op = "map" -> Map(e)
    [] e.op = "look" -> Look(e) [] e.op = "list" -> List(e)
    [] e.op = "engine" -> Engine(e) [] e.op = "rd" -> Rd(e) [] e.op = "ard" -> ARd(e) [] e.op = "wr" -> Wr(e)
    [] e.op = "reset" -> Fresh
    [] OTHER -> FALSE
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Do(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
===============================================================================

----------------------------- MODULE VamanaTrace -----------------------------
EXTENDS Vamana, Json, IOUtils
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == i = 1 /\ cur = [n |-> 0, dim |-> 1, x |-> <<>>]
Do(e) ==
  CASE e.op = "build" -> Build(e) [] e.op = "big" -> Big(e) [] e.op = "hnsw" -> Hnsw(e)
    [] e.op = "prune" -> Prune(e) [] e.op = "assign" -> Assign(e) [] e.op = "merge" -> Merge(e)
    [] e.op = "file" -> File(e) [] e.op = "dispatch" -> Dispatch(e) [] e.op = "skip" -> TRUE
    [] OTHER -> FALSE
TNext == i <= Len(Tr) /\ i' = i + 1 /\ IF Tr[i].op = "reset" THEN Fresh(Tr[i]) ELSE Do(Tr[i]) = TRUE /\ UNCHANGED cur
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
===============================================================================

---------------------------- MODULE DiskAnnTrace ----------------------------
EXTENDS DiskAnn, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"   -> Reset
    [] e.op = "build"   -> Build(e)
    [] e.op = "load"    -> Load(e)
    [] e.op = "unload"  -> Unload
    [] e.op \in {"insert", "binsert", "remove", "removel", "bremove", "bremovel"} -> Update(e)
    [] e.op = "updnode" -> UpdateNode(e)
    [] e.op \in {"flush", "flushp"} -> Flush(e)
    [] e.op = "has"     -> Has(e)
    [] e.op = "graph"   -> Graph(e)
    [] e.op = "search"  -> (Search(e) = TRUE) /\ UNCHANGED dvars
    [] e.op = "par"     -> Par(e)
    [] e.op = "fault"   -> UNCHANGED dvars
    [] OTHER -> FALSE
TInit == /\ dim = 1 /\ deg = 1 /\ lab = <<>> /\ vec = <<>> /\ next = 0 /\ free = {} /\ sure = TRUE /\ G = <<>> /\ rem = <<>> /\ remk = TRUE
         /\ med = 0 /\ op = Many /\ ld = <<>> /\ pq = FALSE /\ ops = 0 /\ fires = 0 /\ maybe = <<>> /\ open = "none" /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

---------------------------- MODULE DiskCollTrace ----------------------------
EXTENDS DiskColl, TLC, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"   -> dim' = e.dim /\ metric' = e.metric /\ engine' = e.engine /\ deg' = e.deg /\ cap' = e.cap
                           /\ disk' = "absent" /\ open' = FALSE /\ segs' = <<>> /\ pend' = <<>>
    [] e.op = "create"  -> Create(e.res, e.fault)
    [] e.op = "open"    -> Open(e.res, e.fault)
    [] e.op = "create2" -> Create2(e.res)
    [] e.op = "open2"   -> Open2(e.res)
    [] e.op = "race"    -> Race(e.kind, e.oks)
    [] e.op = "close"   -> Close
    [] e.op = "rm"      -> RemoveDir
    [] e.op = "add"     -> Add(e.labels, e.vs, e.res)
    [] e.op = "flush"   -> Flush(e.res, e.fault)
    [] e.op = "died"    -> e.of # "crash" /\ Died(e.of)
    [] e.op = "search"  -> Search(e) /\ UNCHANGED dvars
    [] e.op = "batch"   -> Batch(e) /\ UNCHANGED dvars
    [] e.op = "size"    -> Size(e.n) /\ UNCHANGED dvars
    [] e.op = "skip"    -> UNCHANGED dvars
    [] OTHER -> FALSE
TInit == dim = 0 /\ metric = "" /\ engine = "" /\ deg = 0 /\ cap = 0 /\ disk = "absent" /\ open = FALSE /\ segs = <<>> /\ pend = <<>> /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

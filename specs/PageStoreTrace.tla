--------------------------- MODULE PageStoreTrace ---------------------------
EXTENDS PageStore, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"    -> IF e.kind = "cache" THEN CStart(e) ELSE Start(e)
    [] e.op = "write"    -> Write(e)
    [] e.op = "wnbrs"    -> WriteNbrs(e)
    [] e.op = "read"     -> (Read(e) = TRUE) /\ UNCHANGED pvars
    [] e.op = "coords"   -> (Coords(e) = TRUE) /\ UNCHANGED pvars
    [] e.op = "reads"    -> (Reads(e) = TRUE) /\ UNCHANGED pvars
    [] e.op = "nbrs"     -> (Nbrs(e) = TRUE) /\ UNCHANGED pvars
    [] e.op \in {"prefetch", "precoords"} -> Prefetch(e) /\ UNCHANGED pvars
    [] e.op = "peek"     -> (Peek(e) = TRUE) /\ UNCHANGED pvars
    [] e.op = "fill"     -> Fill(e) /\ UNCHANGED pvars
    [] e.op = "file"     -> File(e) /\ UNCHANGED pvars
    [] e.op = "layout"   -> (Layout(e) = TRUE) /\ UNCHANGED pvars
    [] e.op = "par"      -> Par(e)
    [] e.op = "nop"      -> UNCHANGED pvars
    [] e.op = "upsert"   -> Upsert(e)
    [] e.op = "cnbrs"    -> CNbrs(e)
    [] e.op = "lookup"   -> Lookup(e) /\ UNCHANGED pvars
    [] e.op = "drop"     -> Drop
    [] e.op = "csize"    -> CSize(e) /\ UNCHANGED pvars
    [] e.op = "creload"  -> CReload(e)
    [] e.op = "cdamaged" -> e.res = "error" /\ UNCHANGED pvars
    [] OTHER -> FALSE
TInit == dim = 1 /\ deg = 1 /\ map = <<>> /\ pages = 0 /\ hot = <<>> /\ over = <<>> /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ ((Tr[i].op \in {"write", "wnbrs", "read", "coords", "reads", "nbrs", "fill", "flush"} /\ Refused(Tr[i])) \/ Step(Tr[i]))
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

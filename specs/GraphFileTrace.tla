---------------------------- MODULE GraphFileTrace ----------------------------
EXTENDS GraphFile, Json, IOUtils
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
TInit == i = 1 /\ gs = None /\ files = None /\ hs = None /\ hfiles = None /\ known = {} /\ last = 0
Do(e) ==
  CASE e.op = "new" -> GNew(e) [] e.op = "ins" -> GIns(e) [] e.op = "upd" -> GUpd(e) [] e.op = "rem" -> GRem(e)
    [] e.op = "eps" -> GEps(e) [] e.op = "over" -> GOver(e) [] e.op = "save" -> GSave(e) [] e.op = "load" -> GLoad(e)
    [] e.op = "dump" -> GDump(e) [] e.op = "start" -> GStart(e)
    [] e.op = "index" -> HNew(e) [] e.op = "hsave" -> HSave(e) [] e.op = "hload" -> HLoad(e)
    [] e.op = "find" -> HFind(e) [] e.op = "add" -> HAdd(e) [] e.op = "del" -> HDel(e)
    [] e.op = "reset" -> Fresh
    [] e.op = "skip" -> UNCHANGED gvars
    [] OTHER -> FALSE
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Do(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
===============================================================================

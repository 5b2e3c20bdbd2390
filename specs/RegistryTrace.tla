---------------------------- MODULE RegistryTrace -----------------------------
EXTENDS Registry, Json, IOUtils
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"  -> located' = e.located /\ mem' = [n \in Names |-> None] /\ disk' = [n \in Names |-> None] /\ own' = {}
    [] e.op = "create" -> Create(e.kind, e.n, e.params, e.res)
    [] e.op = "goc"    -> GetOrCreate(e.kind, e.n, e.params, e.res)
    [] e.op = "fill"   -> Fill(e.n, Range(e.items), e.res)
    [] e.op = "remove" -> Remove(e.n, Range(e.items), e.res)
    [] e.op = "save"   -> Save(e.kind, e.n, e.res)
    [] e.op = "delete" -> Delete(e.kind, e.n, e.disk, e.res)
    [] e.op = "wipe"   -> Reset(e.disk, e.res)
    [] e.op = "reopen" -> e.res = "ok" /\ Reopen
    [] e.op = "list"   -> Lists(e.cs, e.is) /\ Same
    [] e.op = "look"   -> Look(e.n, e.kind, e.params, e.made, e.data) /\ Same
    [] e.op = "noop"   -> Same
    [] OTHER -> FALSE
TInit == RInit(TRUE) /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

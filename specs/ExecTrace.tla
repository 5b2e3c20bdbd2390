------------------------------ MODULE ExecTrace ------------------------------
EXTENDS Exec, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op \in {"reset", "prog", "skip"} -> UNCHANGED xvars
    [] e.op = "begin" -> Begin(e.kind, e.par)
    [] e.op = "stuck" -> FALSE
    [] OTHER -> Happen(e)
TInit == kind = "" /\ par = 0 /\ st = {} /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

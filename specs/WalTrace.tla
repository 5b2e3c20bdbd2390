------------------------------ MODULE WalTrace -------------------------------
EXTENDS Wal, TLC, Json, IOUtils
VARIABLES i, size
Tr == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.op = "reset"   -> log' = <<>> /\ torn' = FALSE /\ size' = 0
    [] e.op = "prepare" -> Prepare(e.id, e.mt, e.p, e.size) /\ size' = e.size
    [] e.op = "commit"  -> Commit(e.id, e.mt, e.size) /\ size' = e.size
    [] e.op = "drop"    -> Drop /\ size' = 0
    [] e.op = "reopen"  -> Reopen /\ UNCHANGED size
    [] e.op = "damage"  -> Damage(e.off, size, e.junk # 0) /\ size' = e.off
    [] e.op = "replay"  -> Replay(e.after, e.out, e.max) /\ UNCHANGED size
    [] OTHER -> FALSE
TInit == WInit /\ i = 1 /\ size = 0
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

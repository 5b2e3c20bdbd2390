----------------------------- MODULE CandsTrace -----------------------------
EXTENDS Cands, TLC, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[k] : k \in DOMAIN s}
Yes(e) == e.res = "yes"
Inside(e) == e.id < cap
Step(e) ==
  CASE e.op = "reset"   -> Start(e.kind, e.n)
    [] e.op = "insert"  -> Insert(e.id, e.d, e.ret, e.ev, e.who)
    [] e.op = "pop"     -> Pop(e.id, e.hasd, e.d)
    [] e.op = "peek"    -> (Peek(e.id)) = TRUE /\ UNCHANGED cvars
    [] e.op = "none"    -> None /\ UNCHANGED cvars
    [] e.op = "list"    -> (Listed(e)) = TRUE /\ UNCHANGED cvars
    [] e.op = "full"    -> (Full(e.d, e.res)) = TRUE /\ UNCHANGED cvars
    [] e.op = "clear"   -> held' = {} /\ members' = {} /\ UNCHANGED <<kind, cap, cnt, objs>>
    [] e.op = "resize"  -> Resize(e.n)
    [] e.op = "set"     -> IF Inside(e) THEN e.res = "ok" /\ Put(members \cup {e.id}) ELSE e.res = "error" /\ UNCHANGED cvars
    [] e.op = "get"     -> (IF Inside(e) THEN e.res = (IF In(e.id) THEN "yes" ELSE "no") ELSE e.res = "error") /\ UNCHANGED cvars
    [] e.op = "tas"     -> IF Inside(e) THEN e.res = (IF In(e.id) THEN "no" ELSE "yes") /\ Put(members \cup {e.id}) ELSE e.res = "error" /\ UNCHANGED cvars
    [] e.op = "unset"   -> Put(members \ {e.id})
    [] e.op = "all"     -> Put(0..cap-1)
    [] e.op = "first"   -> (IF members = {} THEN e.res = -1 ELSE e.res \in members /\ \A m \in members : e.res <= m) = TRUE /\ UNCHANGED cvars
    [] e.op = "dump"    -> ToSet(e.ids) = members /\ UNCHANGED cvars
    [] e.op = "acquire" -> Acquire(e.obj)
    [] e.op = "release" -> Release(e.obj)
    [] e.op = "oset"    -> OPut(e.obj, e.id)
    [] e.op = "oget"    -> (Used(e.obj) /\ (e.res <=> e.id \in objs[e.obj].members)) /\ UNCHANGED cvars
    [] e.op = "odump"   -> (Used(e.obj) /\ ToSet(e.ids) = objs[e.obj].members) /\ UNCHANGED cvars
    [] e.op = "skip"    -> UNCHANGED cvars
    [] OTHER -> FALSE
TInit == kind = "" /\ cap = 0 /\ held = {} /\ cnt = 0 /\ members = {} /\ objs = <<>> /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

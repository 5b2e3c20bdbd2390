----------------------------- MODULE ScalarTrace -----------------------------
EXTENDS ScalarStore, TLC, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Ask(e, P(_, _)) == (IF e.ro THEN P(view, e) ELSE P(recs, e)) /\ UNCHANGED svars
Step(e) ==
  CASE e.op = "reset"   -> recs' = <<>> /\ view' = <<>>
    [] e.op = "mut"     -> Mutate(e.m) /\ UNCHANGED view
    [] e.op = "batch"   -> Batch(e.ids, e.recs, e.ok) /\ UNCHANGED view
    [] e.op = "par"     -> Parallel(e.ms) /\ UNCHANGED view
    [] e.op = "reopen"  -> Count(recs, e) /\ UNCHANGED svars
    [] e.op = "flush"   -> UNCHANGED svars
    [] e.op = "skip"    -> UNCHANGED svars
    [] e.op = "second"  -> e.ro /\ ~e.first /\ Count(recs, e) /\ view' = recs /\ UNCHANGED recs
    [] e.op = "rowrite" -> (\A k \in 1..Len(e.out) : e.out[k] = 2) /\ UNCHANGED svars
    [] e.op = "get"     -> Ask(e, Get)
    [] e.op = "mget"    -> Ask(e, MGet)
    [] e.op = "find"    -> Ask(e, Find)
    [] e.op = "eq"      -> Ask(e, FieldEq)
    [] e.op = "range"   -> Ask(e, FieldRange)
    [] e.op = "scan"    -> Ask(e, Scan)
    [] e.op = "count"   -> Ask(e, Count)
    [] OTHER -> FALSE
TInit == recs = <<>> /\ view = <<>> /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

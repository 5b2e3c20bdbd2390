----------------------------- MODULE SlotsTrace -----------------------------
EXTENDS Slots, TLC, Json, IOUtils
VARIABLES i
Tr == ndJsonDeserialize(IOEnv.TRACE)
\* The lock order of concurrent operations, folded over the sequential rules.
After(st, o) ==
  CASE ~st.ok -> st
    [] o.k = "alloc" ->
         IF (IF st.free # {} THEN o.id \in st.free ELSE o.id = st.next)
         THEN [ok |-> TRUE, next |-> IF st.free # {} THEN st.next ELSE st.next + 1, free |-> st.free \ {o.id}, marks |-> st.marks \cup {o.id}, top |-> Larger(st.top, o.id + 1)]
         ELSE [st EXCEPT !.ok = FALSE]
    [] o.k = "free" ->
         IF o.id < st.next /\ o.id \notin st.free
         THEN [st EXCEPT !.free = @ \cup {o.id}, !.marks = @ \cup {o.id}, !.top = Larger(@, o.id + 1)]
         ELSE [st EXCEPT !.ok = FALSE]
    [] o.k = "set" -> [st EXCEPT !.marks = @ \cup {o.id}, !.top = Larger(@, o.id + 1)]
    [] OTHER -> [st EXCEPT !.marks = @ \ {o.id}]
Par(e) ==
  /\ (\A k \in 1..Len(e.reads) : ReadOk(marks, e.writes, e.reads[k])) = TRUE
  /\ \E st \in {FoldLeft(After, [ok |-> TRUE, next |-> next, free |-> free, marks |-> marks, top |-> top], e.writes)} :
       st.ok /\ next' = st.next /\ free' = st.free /\ marks' = st.marks /\ top' = st.top
Step(e) ==
  CASE e.op = "reset"   -> Start(e.n)
    [] e.op = "restart" -> Start(e.n)
    [] e.op = "alloc"   -> Alloc(e.id)
    [] e.op = "publish" -> Publish(e.id)
    [] e.op = "free"    -> Free(e.id)
    [] e.op = "set"     -> IF e.big THEN e.res = "error" /\ UNCHANGED svars ELSE e.res = "ok" /\ Set(e.id)
    [] e.op = "clear"   -> IF e.big THEN UNCHANGED svars ELSE Clear(e.id)
    [] e.op = "isdel"   -> (e.res <=> ~e.big /\ e.id \in marks) /\ UNCHANGED svars
    [] e.op = "reload"  -> e.res = "ok" /\ UNCHANGED svars
    [] e.op = "damaged" -> e.res = "error" /\ UNCHANGED svars
    [] e.op = "state"   -> SlotState(e) /\ MarkState(e) /\ UNCHANGED svars
    [] e.op = "mstate"  -> MarkState(e) /\ UNCHANGED svars
    [] e.op = "par"     -> Par(e)
    [] e.op = "skip"    -> UNCHANGED svars
    [] OTHER -> FALSE
TInit == next = 0 /\ free = {} /\ marks = {} /\ top = 0 /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

--------------------------- MODULE CollectionTrace ---------------------------
(* Accepts exactly the recorded histories that Collection allows.            *)
EXTENDS Collection, Json, IOUtils
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<docs, made, cap, metric, i>>

Mutation(e) ==
  CASE e.op = "insert"  -> Insert(e.items, e.res)
    [] e.op = "upsert"  -> Upsert(e.items, e.res)
    [] e.op = "delete"  -> Delete(e.ids, e.res)
    [] e.op = "delby"   -> DeleteBy(e.flt, e.res, e.n)
    [] e.op = "reindex" -> Reindex(e.res)
    [] e.op = "reopen"  -> Reopen(e.res)
    [] e.op = "save"    -> Reopen(e.res)

(* A mutation the process died in: whatever its result would have been.      *)
(* An incremental batch may have been cut between items.                     *)
Cut(e) ==
  \/ UNCHANGED cvars
  \/ e.op \in {"insert", "upsert"} /\
       \E n \in 1..Len(e.items) : \E r \in {"ok", "err"} :
          /\ (~made => n = Len(e.items))
          /\ IF e.op = "insert" THEN Insert(SubSeq(e.items, 1, n), r) ELSE Upsert(SubSeq(e.items, 1, n), r)
  \/ e.op = "delete" /\ \E n \in 1..Len(e.ids) : Delete(SubSeq(e.ids, 1, n), "ok")
  \/ e.op = "delby" /\ \E S \in SUBSET Matching(e.flt) :
        docs' = Drop(docs, S) /\ UNCHANGED <<made, cap, metric>>

(* Complete contents read after a (re)opening. *)
Dump(e) ==
  /\ e.made = made
  /\ {e.out[k].id : k \in 1..Len(e.out)} = Ids
  /\ Len(e.out) = Cardinality(Ids)
  /\ \A k \in 1..Len(e.out) :
       /\ e.out[k].d = docs[e.out[k].id].d
       /\ e.out[k].m = docs[e.out[k].id].m
       /\ metric = "cos" \/ e.out[k].x = docs[e.out[k].id].x
  /\ UNCHANGED cvars

Step(e) ==
  CASE e.op = "reset"  -> /\ docs' = EmptyDocs /\ made' = FALSE
                          /\ cap' = e.cap /\ metric' = e.metric
    [] e.op = "get"    -> Get(e.ids, e.out)
    [] e.op = "filter" -> FilterQuery(e.flt, e.limit, e.out)
    [] e.op = "query"  -> Query(e.q, e.k, e.out, e.exact)
    [] e.op = "hybrid" -> Hybrid(e.q, e.k, e.flt, e.out, e.exact)
    [] e.op = "dump"   -> Dump(e)
    [] e.op = "died"   -> Cut(e.of)
    [] e.op \in {"noop", "counts"} -> UNCHANGED cvars
    [] e.op = "failed" -> FALSE          \* an observation never fails
    [] OTHER           -> Mutation(e)

TInit == CInit(-1, "l2") /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])

Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

----------------------------- MODULE Collection -----------------------------
(* The abstract behaviour of a document collection: a map from item id to    *)
(* document, metadata and vector, observed through lookups, filter queries,  *)
(* vector queries and hybrid queries, persisted by a log and snapshots.      *)
(* Used three ways: model checked (MCCollection), refined by the slot-level  *)
(* design (CollectionImpl) and as the acceptor of recorded traces            *)
(* (CollectionTrace).                                                        *)
EXTENDS Values, TLC

VARIABLES
  docs,    \* item id -> [d: document, m: metadata, x: vector]
  made,    \* the collection has received its first batch
  cap,     \* remaining capacity in slots (a slot is never given back); -1 = unbounded
  metric   \* "l2" | "ip"

cvars == <<docs, made, cap, metric>>

Ids == DOMAIN docs
EmptyDocs == [i \in {} |-> 0]

Put(f, i, rec) == [k \in (DOMAIN f) \cup {i} |-> IF k = i THEN rec ELSE f[k]]
Drop(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]
Rec(it) == [d |-> it.d, m |-> it.m, x |-> it.x]

CInit(c, mt) == docs = EmptyDocs /\ made = FALSE /\ cap = c /\ metric = mt

RoomFor(n) == cap < 0 \/ n <= cap
Use(n) == IF cap < 0 THEN cap ELSE cap - n

ItemIds(items) == {items[i].id : i \in 1..Len(items)}
NoDup(items) == Cardinality(ItemIds(items)) = Len(items)

(* Number of leading items an incremental insert applies before it fails. *)
RECURSIVE PrefixOk(_, _, _, _)
PrefixOk(items, i, have, room) ==
  IF i > Len(items) THEN Len(items)
  ELSE IF items[i].id \in have \/ room = 0 THEN i - 1
  ELSE PrefixOk(items, i + 1, have \cup {items[i].id}, room - 1)

RECURSIVE PutAll(_, _, _)
PutAll(f, items, n) == IF n = 0 THEN f ELSE Put(PutAll(f, items, n - 1), items[n].id, Rec(items[n]))

Insert(items, res) ==
  /\ metric' = metric
  /\ IF Len(items) = 0
     THEN res = "ok" /\ UNCHANGED <<docs, made, cap>>
     ELSE IF ~made
     THEN IF NoDup(items) /\ RoomFor(Len(items))
          THEN /\ res = "ok"
               /\ docs' = PutAll(docs, items, Len(items))
               /\ made' = TRUE
               /\ cap' = Use(Len(items))
          ELSE res = "err" /\ UNCHANGED <<docs, made, cap>>
     ELSE LET n == PrefixOk(items, 1, Ids, cap) IN
          /\ res = (IF n = Len(items) THEN "ok" ELSE "err")
          /\ docs' = PutAll(docs, items, n)
          /\ cap' = Use(n)
          /\ made' = made

(* Upsert replaces or inserts; each item takes a fresh slot. *)
RECURSIVE UpPrefix(_, _, _)
UpPrefix(items, i, room) ==
  IF i > Len(items) THEN Len(items)
  ELSE IF room = 0 THEN i - 1 ELSE UpPrefix(items, i + 1, room - 1)

Upsert(items, res) ==
  IF ~made THEN Insert(items, res)
  ELSE LET n == UpPrefix(items, 1, cap) IN
       /\ res = (IF n = Len(items) THEN "ok" ELSE "err")
       /\ docs' = PutAll(docs, items, n)
       /\ cap' = Use(n)
       /\ UNCHANGED <<made, metric>>

Delete(ids, res) ==
  /\ res = "ok"
  /\ docs' = Drop(docs, {ids[i] : i \in 1..Len(ids)})
  /\ UNCHANGED <<made, cap, metric>>

Matching(flt) == {i \in Ids : Holds(flt, docs[i].m)}

DeleteBy(flt, res, n) ==
  /\ made /\ res = "ok"
  /\ n = Cardinality(Matching(flt))
  /\ docs' = Drop(docs, Matching(flt))
  /\ UNCHANGED <<made, cap, metric>>

(* Rebuilding keeps the documents and compacts the slots. *)
Reindex(res) ==
  /\ made /\ res = "ok"
  /\ UNCHANGED <<docs, made, metric>>
  /\ \/ cap' = cap
     \/ cap >= 0 /\ cap' \in cap..(cap + 64)

(* Lookups: the answer lists the live ones among the ids, in request order. *)
RECURSIVE LiveOf(_)
LiveOf(ids) == IF Len(ids) = 0 THEN <<>>
               ELSE (IF Head(ids) \in Ids THEN <<Head(ids)>> ELSE <<>>) \o LiveOf(Tail(ids))
Get(ids, out) ==
  /\ LET l == IF made THEN LiveOf(ids) ELSE <<>> IN
     /\ Len(out) = Len(l)
     /\ \A k \in 1..Len(l) : out[k].id = l[k] /\ out[k].d = docs[l[k]].d /\ out[k].m = docs[l[k]].m
  /\ UNCHANGED cvars

FilterQuery(flt, limit, out) ==
  /\ made
  /\ LET M == Matching(flt) IN
     /\ Len(out) = (IF Cardinality(M) < limit THEN Cardinality(M) ELSE limit)
     /\ Cardinality({out[k].id : k \in 1..Len(out)}) = Len(out)
     /\ \A k \in 1..Len(out) :
          /\ out[k].id \in M
          /\ out[k].d = docs[out[k].id].d /\ out[k].m = docs[out[k].id].m
     \* each record has its own internal id
     /\ Cardinality({out[k].n : k \in 1..Len(out)}) = Len(out)
  /\ UNCHANGED cvars

(* Squared Euclidean distance, negated inner product, or (cosine) negated     *)
(* inner product of the normalised vectors, compared without roots.          *)
Dist(a, b) == IF metric = "l2" THEN L2(a, b) ELSE -Dot(a, b)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
CosKey(q, a) == Sgn(Dot(q, a)) * Dot(q, a) * Dot(q, a)      \* over Dot(a, a)
CloserEq(q, a, b) ==
  IF metric = "cos" THEN CosKey(q, a) * Dot(b, b) >= CosKey(q, b) * Dot(a, a)
  ELSE Dist(q, a) <= Dist(q, b)
Abs(n) == IF n < 0 THEN -n ELSE n
(* A reported distance: exact, or for cosine in thousandths.                 *)
DistOk(q, a, dist) ==
  IF metric = "cos"
  THEN /\ Abs(dist) <= 1001
       /\ (Dot(q, a) > 0 => dist < 0) /\ (Dot(q, a) < 0 => dist > 0)
       /\ LET n == Dot(q, q) * Dot(a, a) IN
          Abs(dist * dist * n - Dot(q, a) * Dot(q, a) * 1000000) <= 1001 * n + n
  ELSE dist = Dist(q, a)

(* out is the nearest-first answer of one query over the set S (padding stripped). *)
Nearest(q, k, S, out, exact) ==
  /\ Cardinality({out[j].id : j \in 1..Len(out)}) = Len(out)
  /\ \A j \in 1..Len(out) : out[j].id \in S
  /\ \A j \in 1..(Len(out) - 1) : CloserEq(q, docs[out[j].id].x, docs[out[j + 1].id].x)
  /\ Len(out) <= k
  /\ exact =>
       /\ Len(out) = (IF Cardinality(S) < k THEN Cardinality(S) ELSE k)
       /\ Len(out) > 0 =>
            \A i \in S \ {out[j].id : j \in 1..Len(out)} :
               CloserEq(q, docs[out[Len(out)].id].x, docs[i].x)

Query(q, k, out, exact) ==
  /\ made
  /\ Nearest(q, k, Ids, out, exact)
  /\ \A j \in 1..Len(out) :
       /\ DistOk(q, docs[out[j].id].x, out[j].dist)
       /\ out[j].d = docs[out[j].id].d /\ out[j].m = docs[out[j].id].m
  /\ UNCHANGED cvars

Hybrid(q, k, flt, out, exact) ==
  /\ made
  /\ Nearest(q, k, Matching(flt), out, exact)
  /\ UNCHANGED cvars

(* Closing and reopening a persistent collection changes nothing. *)
Reopen(res) == res = "ok" /\ UNCHANGED cvars

(* The process dies with one operation in flight: it takes effect or not. *)
CrashIn(A) == A \/ UNCHANGED cvars

(* Invariants of every reachable state *)
OneRecordPerId == \A i \in Ids : docs[i].x # <<>>
CapOk == cap >= -1
NothingBeforeFirst == ~made => Ids = {}
=============================================================================

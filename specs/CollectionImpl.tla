--------------------------- MODULE CollectionImpl ---------------------------
(* The slot-level design behind a collection: vectors live in slots that are *)
(* never given back, a key-value store keeps the record of each slot, an     *)
(* item-id index and secondary indexes, the search keeps a set of removed    *)
(* slots, and an upsert is a removal followed by an insertion.  It must look *)
(* like the map of Collection from the outside.                              *)
EXTENDS Values, TLC
CONSTANTS IIds, IVecs, ICap
VARIABLES
  slots,     \* sequence of vectors, one per slot ever used
  rec,       \* slot -> [id, m, x] of the stored records
  iid,       \* item id -> slot
  fidx,      \* {<<field value, slot>>}
  gone,      \* slots the search must not report
  fitted,    \* first batch received
  pend       \* an upsert between its two halves: <<>> or <<old record>>
ivars == <<slots, rec, iid, fidx, gone, fitted, pend>>

EmptyFun == [k \in {} |-> 0]
PutF(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
DropF(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
IMeta == {0, 1}                       \* value of the one indexed field
IRec == [id : IIds, m : IMeta, x : {<<v>> : v \in IVecs}]

IInit == slots = <<>> /\ rec = EmptyFun /\ iid = EmptyFun /\ fidx = {} /\ gone = {} /\ fitted = FALSE /\ pend = <<>>

Full == Len(slots) >= ICap
(* New slot, then one write batch: record, item-id entry, field entry. *)
PutSlot(r) ==
  LET n == Len(slots) + 1 IN
  /\ slots' = Append(slots, r.x)
  /\ rec' = PutF(rec, n, r)
  /\ iid' = PutF(iid, r.id, n)
  /\ fidx' = fidx \cup {<<r.m, n>>}
DropSlot(n) ==
  /\ rec' = DropF(rec, n)
  /\ iid' = DropF(iid, rec[n].id)
  /\ fidx' = fidx \ {<<rec[n].m, n>>}
  /\ gone' = gone \cup {n}
  /\ slots' = slots

Fit(r) == ~fitted /\ PutSlot(r) /\ fitted' = TRUE /\ UNCHANGED <<gone, pend>>
InsertOne(r) == /\ fitted /\ pend = <<>> /\ ~Full /\ r.id \notin DOMAIN iid
                /\ PutSlot(r) /\ UNCHANGED <<gone, fitted, pend>>
(* refused before anything is touched *)
RefuseInsert(r) == fitted /\ pend = <<>> /\ (Full \/ r.id \in DOMAIN iid) /\ UNCHANGED ivars
UpsertFirst(r) == /\ fitted /\ pend = <<>> /\ ~Full /\ r.id \in DOMAIN iid
                  /\ pend' = <<rec[iid[r.id]], r>>
                  /\ DropSlot(iid[r.id]) /\ UNCHANGED fitted
UpsertSecond == /\ pend # <<>> /\ PutSlot(pend[2]) /\ pend' = <<>> /\ UNCHANGED <<gone, fitted>>
Remove(i) == /\ fitted /\ pend = <<>> /\ i \in DOMAIN iid /\ DropSlot(iid[i]) /\ UNCHANGED <<fitted, pend>>
RECURSIVE SortedLive(_)
SortedLive(n) == IF n = 0 THEN <<>> ELSE SortedLive(n - 1) \o (IF n \in DOMAIN rec THEN <<rec[n]>> ELSE <<>>)
Rebuild == /\ fitted /\ pend = <<>> /\ DOMAIN rec # {}
           /\ LET l == SortedLive(Len(slots)) IN
              /\ slots' = [k \in 1..Len(l) |-> l[k].x]
              /\ rec' = [k \in 1..Len(l) |-> l[k]]
              /\ iid' = [i \in {l[k].id : k \in 1..Len(l)} |-> CHOOSE k \in 1..Len(l) : l[k].id = i]
              /\ fidx' = {<<l[k].m, k>> : k \in 1..Len(l)}
              /\ gone' = {}
           /\ UNCHANGED <<fitted, pend>>
INext == \/ \E r \in IRec : Fit(r) \/ InsertOne(r) \/ RefuseInsert(r) \/ UpsertFirst(r)
         \/ UpsertSecond \/ \E i \in IIds : Remove(i) \/ Rebuild
ISpec == IInit /\ [][INext]_ivars

(* ---- invariants of the design *)
SlotsBounded == Len(slots) <= ICap
OneSlotPerId == \A i \in DOMAIN iid : iid[i] \in DOMAIN rec /\ rec[iid[i]].id = i
OneIdPerSlot == \A n \in DOMAIN rec : rec[n].id \in DOMAIN iid /\ iid[rec[n].id] = n
IndexExact == fidx = {<<rec[n].m, n>> : n \in DOMAIN rec}
SearchSeesLive == DOMAIN rec = (1..Len(slots)) \ gone
VectorsMatch == \A n \in DOMAIN rec : slots[n] = rec[n].x

(* ---- refinement of the map *)
MetaOf(m) == << [f |-> "c", x |-> [t |-> "i", v |-> <<m>>]] >>
AbsRec(r) == [d |-> 0, m |-> MetaOf(r.m), x |-> r.x]
AbsDocs == LET D == DOMAIN iid \cup (IF pend = <<>> THEN {} ELSE {pend[1].id}) IN
           [i \in D |-> IF i \in DOMAIN iid THEN AbsRec(rec[iid[i]]) ELSE AbsRec(pend[1])]
AbsCap == ICap - Len(slots)
A == INSTANCE Collection WITH docs <- AbsDocs, made <- fitted, cap <- AbsCap, metric <- "l2"
AItem(r) == [id |-> r.id, d |-> 0, m |-> MetaOf(r.m), x |-> r.x]
ANext == \/ \E r \in IRec : A!Insert(<<AItem(r)>>, "ok") \/ A!Upsert(<<AItem(r)>>, "ok")
         \/ \E i \in IIds : A!Delete(<<i>>, "ok")
         \/ A!Reindex("ok")
Refines == [][ANext]_<<AbsDocs, fitted, AbsCap>>
=============================================================================

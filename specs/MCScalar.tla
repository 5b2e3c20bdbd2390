------------------------------- MODULE MCScalar -------------------------------
(* The store's keys: data, item index, field index and a count, each call one *)
(* atomic write batch (what a kill leaves is a prefix of the calls), refined  *)
(* against the map of ScalarStore.  Wrong designs:                            *)
(*   CountApart   the count is only written when flushing or closing          *)
(*   KeepOldIndex an update leaves the old index entry                        *)
(*   CheckOutside the availability of an item id is checked before the lock   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Items, Vals, CountApart, KeepOldIndex, CheckOutside
VARIABLES data, iidx, fidx, cnt, mem, recs, pend
vars == <<data, iidx, fidx, cnt, mem, recs, pend>>
Recs == [item : Items, val : Vals]
Put(s, i, r) == [j \in DOMAIN s \cup {i} |-> IF j = i THEN r ELSE s[j]]
Del(s, i) == [j \in DOMAIN s \ {i} |-> s[j]]
Init == data = <<>> /\ iidx = <<>> /\ fidx = {} /\ cnt = 0 /\ mem = 0 /\ recs = <<>> /\ pend = {}
FreeIdx(r, i) == IF r.item = 0 THEN TRUE ELSE IF r.item \in DOMAIN iidx THEN iidx[r.item] = i ELSE TRUE
Freed(i) == IF i \in DOMAIN data /\ data[i].item # 0 THEN Del(iidx, data[i].item) ELSE iidx
Write(i, r) ==
  /\ data' = Put(data, i, r)
  /\ iidx' = IF r.item = 0 THEN Freed(i) ELSE Put(Freed(i), r.item, i)
  /\ fidx' = (IF i \in DOMAIN data /\ ~KeepOldIndex THEN fidx \ {<<data[i].val, i>>} ELSE fidx) \cup {<<r.val, i>>}
  /\ mem' = IF i \in DOMAIN data THEN mem ELSE mem + 1
  /\ cnt' = IF CountApart THEN cnt ELSE mem'
  /\ recs' = Put(recs, i, r)
Insert(i, r) == FreeIdx(r, i) /\ Write(i, r) /\ UNCHANGED pend
\* two calls: the check of one may precede the other's write
Check(i, r) == CheckOutside /\ FreeIdx(r, i) /\ Cardinality(pend) < 2 /\ pend' = pend \cup {[i |-> i, r |-> r]} /\ UNCHANGED <<data, iidx, fidx, cnt, mem, recs>>
Late(p) == p \in pend /\ Write(p.i, p.r) /\ pend' = pend \ {p}
Remove(i) == /\ i \in DOMAIN data /\ data' = Del(data, i) /\ iidx' = Freed(i) /\ fidx' = fidx \ {<<data[i].val, i>>}
             /\ mem' = mem - 1 /\ cnt' = (IF CountApart THEN cnt ELSE mem') /\ recs' = Del(recs, i) /\ UNCHANGED pend
Flush == cnt' = mem /\ UNCHANGED <<data, iidx, fidx, mem, recs, pend>>
Kill == mem' = cnt /\ pend' = {} /\ UNCHANGED <<data, iidx, fidx, cnt, recs>>
Next == \/ \E i \in Slots, r \in Recs : Insert(i, r) \/ Check(i, r)
        \/ \E p \in pend : Late(p)
        \/ \E i \in Slots : Remove(i)
        \/ Flush \/ Kill
Same == data = recs
Counted == mem = Cardinality(DOMAIN recs)
ItemIdx == /\ \A it \in DOMAIN iidx : iidx[it] \in DOMAIN recs /\ recs[iidx[it]].item = it
           /\ \A i \in DOMAIN recs : recs[i].item # 0 => recs[i].item \in DOMAIN iidx /\ iidx[recs[i].item] = i
FieldIdx == fidx = {<<recs[i].val, i>> : i \in DOMAIN recs}
=============================================================================

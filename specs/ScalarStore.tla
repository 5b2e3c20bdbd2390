----------------------------- MODULE ScalarStore -----------------------------
(* The scalar store as a map from internal id to a record                    *)
(* [item, doc, meta]; item 0 is "no item id".  Everything that can be asked  *)
(* is a function of that map.                                                *)
EXTENDS Values
VARIABLES recs, view        \* view: what a second (read-only) handle sees, as of its opening
svars == <<recs, view>>
Ids(s) == DOMAIN s
Put(s, i, r) == [j \in DOMAIN s \cup {i} |-> IF j = i THEN r ELSE s[j]]
Del(s, i) == [j \in DOMAIN s \ {i} |-> s[j]]
NoRec == [item |-> 0, doc |-> 0, meta |-> <<>>]
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE NoRec
Free(s, item, i) == item = 0 \/ \A j \in DOMAIN s : s[j].item = item => j = i
Owner(s, item) == IF item = 0 \/ ~\E j \in DOMAIN s : s[j].item = item THEN -2 ELSE CHOOSE j \in DOMAIN s : s[j].item = item

\* one call on a store: the answer and the store afterwards
Allowed(s, m) == CASE m.k = "I" -> Free(s, m.rec.item, m.id)
                   [] m.k = "U" -> m.id \in DOMAIN s /\ Free(s, m.rec.item, m.id)
                   [] m.k = "D" -> m.id \in DOMAIN s
After(s, m) == IF ~Allowed(s, m) THEN s ELSE IF m.k = "D" THEN Del(s, m.id) ELSE Put(s, m.id, m.rec)
Answer(s, m) == IF Allowed(s, m) THEN 1 ELSE 0

Mutate(m) == m.ok = Answer(recs, m) /\ recs' = After(recs, m)

BatchAllowed(ids, rs) ==
  /\ \A i, j \in 1..Len(rs) : i # j /\ rs[i].item # 0 => rs[i].item # rs[j].item
  /\ \A i \in 1..Len(rs) : Free(recs, rs[i].item, ids[i])
InBatch(ids, x) == \E i \in 1..Len(ids) : ids[i] = x
Batch(ids, rs, ok) ==
  /\ ok = (IF BatchAllowed(ids, rs) THEN 1 ELSE 0)
  /\ recs' = IF ok = 1
             THEN [x \in DOMAIN recs \cup {ids[i] : i \in 1..Len(ids)} |->
                     IF InBatch(ids, x) THEN rs[CHOOSE i \in 1..Len(ids) : ids[i] = x] ELSE recs[x]]
             ELSE recs

\* calls at the same time take effect one by one in some order
RECURSIVE Sequential(_, _)
Sequential(s, todo) ==     \* the stores reachable by completing all of todo with the answers they gave
  IF todo = {} THEN {s}
  ELSE UNION {Sequential(After(s, m), todo \ {m}) : m \in {x \in todo : x.ok = Answer(s, x)}}
Parallel(ms) == \E s \in Sequential(recs, {[k |-> ms[i].k, id |-> ms[i].id, rec |-> ms[i].rec, ok |-> ms[i].ok, n |-> i] : i \in 1..Len(ms)}) : recs' = s

IsList(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
\* answers
Get(s, e) ==
  /\ e.valid = (e.id \in DOMAIN s) /\ e.raw = e.valid
  /\ e.rec = At(s, e.id) /\ e.rrec = At(s, e.id)
MGet(s, e) ==
  /\ Len(e.recs) = Len(e.ids) /\ Len(e.items) = Len(e.ids) /\ Len(e.raws) = Len(e.ids)
  /\ \A i \in 1..Len(e.ids) : e.recs[i] = At(s, e.ids[i]) /\ e.items[i] = At(s, e.ids[i]).item /\ e.raws[i] = At(s, e.ids[i])
Find(s, e) ==
  /\ e.id = Owner(s, e.item)
  /\ e.avail = (Owner(s, e.item) = -2)
  /\ e.availfor = Free(s, e.item, e.at)
FieldEq(s, e) == IsList(e.ids, {i \in DOMAIN s : HasField(s[i].meta, e.f) /\ Same(FieldVal(s[i].meta, e.f), e.x)})
FieldRange(s, e) ==
  IsList(e.ids, {i \in DOMAIN s : /\ HasField(s[i].meta, e.f)
                                  /\ LET x == FieldVal(s[i].meta, e.f) IN x.t = e.lo.t /\ ~Less(x, e.lo) /\ ~Less(e.hi, x)})
Scan(s, e) ==
  LET S == {i \in DOMAIN s : e.f = "*" \/ HasField(s[i].meta, e.f)}
      n == Len(e.out)
  IN /\ n = (IF e.lim = 0 \/ e.lim > Cardinality(S) THEN Cardinality(S) ELSE e.lim)
     /\ \A k \in 1..n : e.out[k].id \in S /\ e.out[k].rec = s[e.out[k].id]
     /\ \A k \in 1..n : \A i \in S : i < e.out[k].id => \E l \in 1..(k - 1) : e.out[l].id = i      \* smallest ids first
Count(s, e) == e.n = Cardinality(DOMAIN s)
=============================================================================

------------------------------ MODULE DiskColl ------------------------------
(* A disk collection: published segments of labelled vectors, rows waiting   *)
(* for the next flush, and at most one open handle.                          *)
EXTENDS Values, SequencesExt
VARIABLES dim, metric, engine, deg, cap, disk, open, segs, pend
dvars == <<dim, metric, engine, deg, cap, disk, open, segs, pend>>
conf  == <<dim, metric, engine, deg, cap>>
\* disk: "absent" | "junk" (an interrupted creation, to be removed by hand) | "there"

Abs(x) == IF x < 0 THEN -x ELSE x
Rows == FlattenSeq(segs)
Labels(rows) == {rows[i].l : i \in 1..Len(rows)}
Unique(rows) == Cardinality(Labels(rows)) = Len(rows)
Finite(v) == \A d \in 1..Len(v) : v[d] < 1000000
Zero(v) == \A d \in 1..Len(v) : v[d] = 0
\* four times the distance: whole numbers for every metric (vectors under COS are on an axis or have equal magnitudes everywhere)
Norm(v) == CHOOSE n \in 0..200 : n * n = Dot(v, v)
Dist4(a, b) == CASE metric = "l2" -> 4 * L2(a, b)
                 [] metric = "ip" -> -4 * Dot(a, b)
                 [] metric = "cos" -> LET m == Norm(a) * Norm(b) IN -((4 * Dot(a, b)) \div m)

Flushable == /\ Unique(pend)
             /\ Labels(pend) \cap Labels(Rows) = {}
             /\ \A i \in 1..Len(pend) : Finite(pend[i].x) /\ (metric = "cos" => ~Zero(pend[i].x))
             /\ engine = "vamana" => Len(pend) >= 2

\* a fault may make a call fail; a failed call changes nothing (an interrupted creation may leave a directory behind)
Create(res, fault) ==
  IF disk = "absent" /\ ~open
  THEN \/ res = "ok" /\ disk' = "there" /\ open' = TRUE /\ segs' = <<>> /\ pend' = <<>> /\ UNCHANGED conf
       \/ res = "err" /\ fault /\ disk' \in {"absent", "junk"} /\ UNCHANGED <<open, segs, pend>> /\ UNCHANGED conf
  ELSE res = "err" /\ UNCHANGED dvars
Open(res, fault) ==
  IF disk = "there" /\ ~open
  THEN \/ res = "ok" /\ open' = TRUE /\ pend' = <<>> /\ UNCHANGED <<disk, segs>> /\ UNCHANGED conf
       \/ res = "err" /\ fault /\ UNCHANGED dvars
  ELSE res = "err" /\ UNCHANGED dvars
\* an attempt that gives its handle up at once
Open2(res) == res = (IF disk = "there" /\ ~open THEN "ok" ELSE "err") /\ UNCHANGED dvars
Create2(res) == /\ res = (IF disk = "absent" THEN "ok" ELSE "err")
                /\ IF disk = "absent" THEN disk' = "there" /\ segs' = <<>> /\ UNCHANGED <<open, pend>> /\ UNCHANGED conf ELSE UNCHANGED dvars
\* simultaneous attempts; an opener may get in the way of a creation that has only begun, but two never succeed
Race(kind, oks) ==
  CASE disk = "absent" /\ kind = "c" -> oks = 1 /\ disk' = "there" /\ segs' = <<>> /\ UNCHANGED <<open, pend>> /\ UNCHANGED conf
    [] disk = "absent" /\ kind = "m" -> /\ oks \in {0, 1}
                                       /\ disk' \in (IF oks = 1 THEN {"there"} ELSE {"junk", "there"})
                                       /\ segs' = <<>> /\ UNCHANGED <<open, pend>> /\ UNCHANGED conf
    [] OTHER -> oks = (IF disk = "there" /\ ~open /\ kind # "c" THEN 1 ELSE 0) /\ UNCHANGED dvars
Close == open' = FALSE /\ pend' = <<>> /\ UNCHANGED <<disk, segs>> /\ UNCHANGED conf
RemoveDir == /\ ~open /\ disk' = "absent" /\ segs' = <<>> /\ UNCHANGED <<open, pend>> /\ UNCHANGED conf

Add(labels, vs, res) ==
  /\ open
  /\ IF Len(labels) = 0 \/ cap < 0 \/ Len(pend) + Len(labels) <= cap
     THEN res = "ok" /\ pend' = pend \o [i \in 1..Len(labels) |-> [l |-> labels[i], x |-> vs[i]]] /\ UNCHANGED <<disk, open, segs>> /\ UNCHANGED conf
     ELSE res = "err" /\ UNCHANGED dvars
Publish == segs' = (IF pend = <<>> THEN segs ELSE Append(segs, pend)) /\ pend' = <<>>
Flush(res, fault) ==
  /\ open
  /\ IF pend = <<>> THEN res = "ok" /\ UNCHANGED dvars
     ELSE IF ~Flushable THEN res = "err" /\ UNCHANGED dvars
     ELSE \/ res = "ok" /\ Publish /\ UNCHANGED <<disk, open>> /\ UNCHANGED conf
          \/ res = "err" /\ fault /\ UNCHANGED dvars
\* the process holding the handle died during the call
Died(of) ==
  /\ open' = FALSE /\ UNCHANGED conf
  /\ CASE of = "flush" -> /\ UNCHANGED disk
                          /\ \/ segs' = segs /\ pend' = <<>>
                             \/ open /\ Flushable /\ Publish
       [] of = "create" -> /\ pend' = <<>> /\ UNCHANGED segs
                           /\ IF disk = "absent" THEN disk' \in {"absent", "junk", "there"} ELSE UNCHANGED disk
       [] of = "other" -> pend' = <<>> /\ UNCHANGED <<disk, segs>>

Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Exact(q, k, rows) ==
  LET all == {<<rows[i].l, Dist4(q, rows[i].x)>> : i \in 1..Len(rows)}
      s == SetToSortSeq(all, Before)
  IN SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
\* a graph segment may miss rows when the beam does not cover it; what it returns is real
Sound(q, k, rows, hits) ==
  /\ Len(hits) <= k
  /\ \A i \in 1..Len(hits) : \E j \in 1..Len(rows) : rows[j].l = hits[i][1] /\ hits[i][2] = Dist4(q, rows[j].x)
  /\ \A i \in 1..(Len(hits) - 1) : Before(hits[i], hits[i + 1])
  /\ Len(rows) > 0 => Len(hits) > 0
\* when the beam and the degree limit cover every segment nothing may be missed; a graph segment breaks ties at the cut its own way
Covers(ef, k) == \A i \in 1..Len(segs) : Len(segs[i]) <= (IF ef > k THEN ef ELSE k) /\ Len(segs[i]) <= deg
Nearest(q, k, rows, hits) ==
  LET x == Exact(q, k, rows) IN Sound(q, k, rows, hits) /\ Len(hits) = Len(x) /\ \A i \in 1..Len(x) : hits[i][2] = x[i][2]
Answer(q, k, ef, hits) ==
  IF engine = "flat" THEN hits = Exact(q, k, Rows)
  ELSE IF Covers(ef, k) THEN Nearest(q, k, Rows, hits)
  ELSE Sound(q, k, Rows, hits)
BadQuery(q) == segs # <<>> /\ (~Finite(q) \/ (metric = "cos" /\ Zero(q)))
Search(e) ==
  /\ open
  /\ IF e.k = 0 \/ BadQuery(e.q) THEN e.res = "err"
     ELSE e.res = "ok" /\ Answer(e.q, e.k, e.ef, e.hits)
NoDist == 1999999999
Pad == <<48, NoDist>>       \* the caller's filler: the largest label and no distance
Batch(e) ==
  /\ open /\ ~e.over
  /\ IF e.k = 0 \/ e.threads = 0 \/ (\E i \in 1..Len(e.qs) : BadQuery(e.qs[i])) THEN e.res = "err"
     ELSE /\ e.res = "ok"
          /\ Len(e.rows) = Len(e.qs)
          /\ \A i \in 1..Len(e.qs) :
               LET r == e.rows[i]
                   want == Exact(e.qs[i], e.k, Rows)
                   Top(n) == SubSeq(r, 1, n)
               IN /\ Len(r) = e.k
                  /\ \E n \in (IF Covers(e.ef, e.k) \/ engine = "flat" THEN {Len(want)} ELSE 0..Len(want)) :
                       /\ \A j \in (n + 1)..e.k : r[j] = Pad
                       /\ IF e.wd THEN Answer(e.qs[i], e.k, e.ef, Top(n))
                          ELSE /\ \A j \in 1..n : r[j][1] \in Labels(Rows) /\ r[j][2] = NoDist
                               /\ \A a, b \in 1..n : a # b => r[a][1] # r[b][1]
                               /\ engine = "flat" => \A j \in 1..n : r[j][1] = want[j][1]
Size(n) == open /\ n = Len(Rows)
=============================================================================

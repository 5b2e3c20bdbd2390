----------------------------- MODULE PageStore ------------------------------
(* Node records of the updatable disk index as a map from node number to     *)
(* [b: what stands for the vector, n: the neighbours], whatever caches lie   *)
(* between: every read gives what was written last, a flush makes the file   *)
(* equal to it.  Records never written inside the file read as empty; what   *)
(* lies beyond its end cannot be read, and only a whole record can be put    *)
(* there.  The hot-node cache: records chosen breadth first from the entry   *)
(* point, overridden by later updates.                                       *)
EXTENDS PageGeo, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES dim, deg, map, pages, hot, over
pvars == <<dim, deg, map, pages, hot, over>>
Empty == [b |-> 0, n |-> <<>>]
Put(m, id, r) == IF r = Empty THEN [x \in DOMAIN m \ {id} |-> m[x]] ELSE (id :> r) @@ m
Rec(m, id) == IF id \in DOMAIN m THEN m[id] ELSE Empty
Inside(id) == PageOf(dim, deg, id) < pages
InitialMap(g) == [k \in 0..(Len(g) - 1) |-> [b |-> k + 1, n |-> g[k + 1]]]
Start(e) ==
  /\ dim' = e.dim /\ deg' = e.deg /\ map' = InitialMap(e.graph) /\ pages' = Pages(e.dim, e.deg, Len(e.graph))
  /\ hot' = <<>> /\ over' = <<>>
Write(e) ==
  /\ e.res = (IF Len(e.n) > deg THEN "error" ELSE "ok")
  /\ IF e.res = "ok" THEN map' = Put(map, e.id, [b |-> e.b, n |-> e.n]) /\ pages' = Larger(pages, PageOf(dim, deg, e.id) + 1)
                     ELSE UNCHANGED <<map, pages>>
  /\ UNCHANGED <<dim, deg, hot, over>>
WriteNbrs(e) ==
  /\ e.res = (IF Len(e.n) > deg \/ ~Inside(e.id) THEN "error" ELSE "ok")
  /\ map' = IF e.res = "ok" THEN Put(map, e.id, [b |-> Rec(map, e.id).b, n |-> e.n]) ELSE map
  /\ UNCHANGED <<dim, deg, pages, hot, over>>
(* The device refused a write meanwhile: the call may report that, and then   *)
(* nothing is lost or changed, except that the file may have grown.           *)
Refused(e) ==
  /\ e.armed /\ e.res = "error"
  /\ pages' \in {pages} \cup (IF e.op = "write" THEN {Larger(pages, PageOf(dim, deg, e.id) + 1)} ELSE {})
  /\ UNCHANGED <<dim, deg, map, hot, over>>
Read(e) == IF Inside(e.id) THEN e.res = "ok" /\ e.out = Rec(map, e.id) ELSE e.res = "error"
Coords(e) == IF Inside(e.id) THEN e.res = "ok" /\ e.out = Rec(map, e.id).b ELSE e.res = "error"
AllInside(ids) == \A k \in 1..Len(ids) : Inside(ids[k])
Reads(e) == IF AllInside(e.ids) THEN e.res = "ok" /\ e.out = <<>> \o [k \in 1..Len(e.ids) |-> Rec(map, e.ids[k])] ELSE e.res = "error"
Nbrs(e) == IF AllInside(e.ids) THEN e.res = "ok" /\ e.out = <<>> \o [k \in 1..Len(e.ids) |-> Rec(map, e.ids[k]).n] ELSE e.res = "error"
Prefetch(e) == e.res = (IF e.op = "precoords" /\ e.reactor /\ ~AllInside(e.ids) THEN "error" ELSE "ok")
PageRecs(id) == {[id |-> x, r |-> map[x]] : x \in {y \in DOMAIN map : PageOf(dim, deg, y) = PageOf(dim, deg, id)}}
Peek(e) == e.hit => Inside(e.id) /\ ToSet(e.recs) = PageRecs(e.id) /\ e.clean
Fill(e) == e.res = "ok" /\ ToSet(e.recs) = PageRecs(e.id) /\ e.clean
File(e) ==
  /\ e.size = FileSize(dim, deg, pages) /\ e.known = e.size
  /\ ToSet(e.recs) = {[id |-> x, r |-> map[x]] : x \in DOMAIN map}
  /\ e.clean /\ e.head
(* Concurrent use: every node has one writer, so its versions are in order;  *)
(* a read gives a version current at some moment while it ran.               *)
ReadOk(writes, r) ==
  LET ws == SelectSeq(writes, LAMBDA w : w.id = r.id)
      before == Cardinality({k \in 1..Len(ws) : ws[k].e < r.s})
      Fits(v) == IF r.full THEN r.r = v ELSE r.r.b = v.b
  IN \E k \in before..Len(ws) :
       /\ k = before \/ ws[k].s < r.e
       /\ Fits(IF k = 0 THEN Rec(map, r.id) ELSE ws[k].r)
Par(e) ==
  /\ ~e.failed
  /\ (\A k \in 1..Len(e.reads) : ReadOk(e.writes, e.reads[k])) = TRUE
  /\ map' = FoldLeft(LAMBDA m, w : Put(m, w.id, w.r), map, e.writes)
  /\ pages' = FoldLeft(LAMBDA p, w : Larger(p, PageOf(dim, deg, w.id) + 1), pages, e.writes)
  /\ UNCHANGED <<dim, deg, hot, over>>
(* Layout files.                                                             *)
Consistent(f, size) ==
  /\ \A k \in DOMAIN f : f[k] # -1
  /\ f.np > 0 /\ f.dim > 0
  /\ f.nl = NodeLen(f.dim, f.deg)
  /\ f.nps = PerPage(f.dim, f.deg)
  /\ f.med < f.np
  /\ f.tot = FileSize(f.dim, f.deg, Pages(f.dim, f.deg, f.np))
  /\ size = f.tot
Layout(e) ==
  LET n == Len(e.graph)
      fits == n > 0 /\ e.medoid < n /\ \A k \in 1..n : Len(e.graph[k]) <= deg
  IN IF ~fits THEN e.written = "error"
     ELSE /\ e.written = "ok"
          /\ e.len = FileSize(dim, deg, Pages(dim, deg, n))
          /\ ToSet(e.recs) = {[id |-> k, r |-> InitialMap(e.graph)[k]] : k \in 0..(n - 1)}
          /\ e.clean
          /\ IF Consistent(e.f, e.size) THEN e.res = "ok" /\ e.got = e.f ELSE e.res = "error"
(* The hot-node cache.                                                       *)
RECURSIVE Bfs(_, _, _, _, _)
Bfs(g, queue, seen, done, n) ==
  IF queue = <<>> \/ Len(done) >= n THEN done
  ELSE LET u == queue[1]
           new == FoldLeft(LAMBDA acc, v : IF v < Len(g) /\ v \notin seen /\ ~Contains(acc, v) THEN Append(acc, v) ELSE acc, <<>>, g[u + 1])
       IN Bfs(g, SubSeq(queue, 2, Len(queue)) \o new, seen \cup ToSet(new), Append(done, u), n)
Target(ratio, n) == IF ratio <= 0 THEN 0 ELSE LET t == ((ratio * n) + 99) \div 100 IN IF t > n THEN n ELSE t
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
CStart(e) ==
  /\ dim' = e.dim /\ deg' = e.deg /\ pages' = 0 /\ over' = <<>>
  /\ \E h \in {Bfs(e.graph, <<e.medoid>>, {e.medoid}, <<>>, Target(e.ratio, Len(e.graph)))} :
       /\ hot' = h
       /\ map' = [k \in ToSet(h) |-> [b |-> k + 1, n |-> Cut(e.graph[k + 1], e.deg)]]
Seen == over @@ map
Upsert(e) ==
  /\ e.res = (IF Len(e.n) > deg THEN "error" ELSE "ok")
  /\ over' = IF e.res = "ok" THEN (e.id :> [b |-> e.b, n |-> e.n]) @@ over ELSE over
  /\ UNCHANGED <<dim, deg, map, pages, hot>>
CNbrs(e) ==
  /\ e.res = (IF Len(e.n) > deg THEN "error" ELSE "ok")
  /\ over' = IF e.res = "ok" /\ e.id \in DOMAIN Seen THEN (e.id :> [b |-> Seen[e.id].b, n |-> e.n]) @@ over ELSE over
  /\ UNCHANGED <<dim, deg, map, pages, hot>>
Lookup(e) == e.same /\ e.out = (IF e.id \in DOMAIN Seen THEN <<Seen[e.id]>> ELSE <<>>)
Drop == over' = [x \in DOMAIN over \cap ToSet(hot) |-> over[x]] /\ UNCHANGED <<dim, deg, map, pages, hot>>
CSize(e) == e.n = Cardinality(DOMAIN Seen) /\ e.hot = hot /\ e.len = NodeLen(dim, deg)
CReload(e) ==
  /\ e.res = "ok"
  /\ map' = Seen /\ over' = <<>>
  /\ hot' = hot \o SetToSortSeq(DOMAIN over \ ToSet(hot), <)
  /\ UNCHANGED <<dim, deg, pages>>
=============================================================================

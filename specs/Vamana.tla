-------------------------------- MODULE Vamana --------------------------------
(* Proximity graphs as their builders hand them over: one list per vector, no    *)
(* longer than allowed, of distinct valid nodes other than its own; what pruning *)
(* may drop; shards that share out every vector; merging that keeps every edge   *)
(* it has room for; files that are read back as written or refused.              *)
(* Nodes are numbered from 0, sequences from 1.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES cur                      \* the vectors at hand and the last assignment to shards
Set(s) == {s[j] : j \in 1..Len(s)}
Distinct(s) == Cardinality(Set(s)) = Len(s)
Abs(x) == IF x < 0 THEN -x ELSE x
ListOk(l, k, n, R) == Len(l) <= R /\ Distinct(l) /\ \A v \in Set(l) : v >= 0 /\ v < n /\ v # k
WellFormed(g, n, R, start) ==
  /\ Len(g) = n /\ start >= 0 /\ start < n
  /\ \A k \in 1..n : ListOk(g[k], k - 1, n, R)
\* the vectors are integral, so squared distances are exact
Dist(p, q) == FoldLeft(LAMBDA s, j : s + (cur.x[p * cur.dim + j] - cur.x[q * cur.dim + j]) * (cur.x[p * cur.dim + j] - cur.x[q * cur.dim + j]), 0, [j \in 1..cur.dim |-> j])
FarFrom(p, cs, c) == FoldLeft(LAMBDA s, j : s + (cur.x[p * cur.dim + j] - cs[c * cur.dim + j]) * (cur.x[p * cur.dim + j] - cs[c * cur.dim + j]), 0, [j \in 1..cur.dim |-> j])
\* once somebody can be reached, nobody but a lone vector is left without neighbours
Linked(g) == Len(g) > 1 => \A k \in 1..Len(g) : g[k] # <<>>
Build(e) == WellFormed(e.g, cur.n, e.R, e.start) /\ Linked(e.g)
Big(e) == WellFormed(e.g, e.N, e.R, e.start) /\ Linked(e.g)
\* HNSW: layer 0 takes R, the layers above refer only to nodes that reach that high
Hnsw(e) ==
  /\ WellFormed(e.g, cur.n, e.R, e.start)
  /\ Len(e.up) = cur.n
  /\ \A k \in 1..cur.n : \A l \in 1..Len(e.up[k]) :
       ListOk(e.up[k][l], k - 1, cur.n, e.R) /\ \A v \in Set(e.up[k][l]) : Len(e.up[v + 1]) >= l
  /\ \A k \in 1..cur.n : Len(e.up[k]) <= Len(e.up[e.start + 1])
 
\* a is the slack in tenths.  The nearest candidate stays; nobody is kept that a kept nearer candidate
\* hides by more than the slack (counting those kept before it); whoever is left out with room to spare is hidden by a kept candidate.
Near(loc, c, d) == LET D(x) == Dist(loc, x) IN {x \in Set(c) : \A y \in Set(c) : D(x) <= D(y)}
Ahead(loc, x, y) == Dist(loc, x) < Dist(loc, y) \/ (Dist(loc, x) = Dist(loc, y) /\ x < y)
InReach(loc, c, maxc) == {x \in Set(c) : Cardinality({y \in Set(c) : Ahead(loc, y, x)}) < maxc}
Prune(e) ==
  /\ \E in \in {InReach(e.loc, e.c, e.maxc)} :
       /\ ListOk(e.r, e.loc, cur.n, e.deg)
       /\ Set(e.r) \subseteq in
       /\ (in \ {e.loc} # {} /\ e.deg > 0 /\ e.loc \notin in) => \E x \in Set(e.r) : \A y \in in : Dist(e.loc, x) <= Dist(e.loc, y)
       /\ \A i \in 1..Len(e.r), j \in 1..Len(e.r) : (i < j /\ Ahead(e.loc, e.r[i], e.r[j])) => (Dist(e.r[i], e.r[j]) > 0 /\ 10 * Dist(e.loc, e.r[j]) <= e.a * Dist(e.r[i], e.r[j]))
       /\ Len(e.r) < e.deg => \A y \in in \ (Set(e.r) \cup {e.loc}) : \E x \in Set(e.r) \cup (in \cap {e.loc}) : Ahead(e.loc, x, y) /\ (Dist(x, y) = 0 \/ Dist(x, y) < Dist(e.loc, y))
 
\* every vector goes, whole, to exactly k shards, and no other shard is nearer than those
Shards(e, p) == {s \in 1..Len(e.ids) : p \in Set(e.ids[s])}
Assign(e) ==
  LET nc == Len(e.cs) \div cur.dim IN
  /\ IF e.k = 0 \/ e.k > nc \/ nc = 0 THEN e.res = "error"
     ELSE
       /\ e.res = "ok"
       /\ Len(e.ids) = nc
       /\ \A s \in 1..nc :
            /\ \A j \in 1..(Len(e.ids[s]) - 1) : e.ids[s][j] < e.ids[s][j + 1]
            /\ e.head[s] = <<Len(e.ids[s]), 1, Len(e.ids[s]), cur.dim, Len(e.ids[s])>>
            /\ Len(e.vals[s]) = Len(e.ids[s]) * cur.dim
            /\ \A j \in 1..Len(e.vals[s]) : e.vals[s][j] = cur.x[e.ids[s][((j - 1) \div cur.dim) + 1] * cur.dim + ((j - 1) % cur.dim) + 1]
       /\ \A p \in 0..(cur.n - 1) : \E in \in {Shards(e, p)} :
            /\ Cardinality(in) = e.k
            /\ \A s \in in, t \in (1..nc) \ in : FarFrom(p, e.cs, s - 1) <= FarFrom(p, e.cs, t - 1)
      
\* what the parts say about vector p, in its own numbering
At(part, p) == CHOOSE j \in 1..Len(part.ids) : part.ids[j] = p
Union(e, p) == UNION {{e.parts[s].ids[v + 1] : v \in Set(e.parts[s].g[At(e.parts[s], p)])} : s \in {s \in 1..Len(e.parts) : p \in Set(e.parts[s].ids)}} \ {p}
Least(a, b) == IF a < b THEN a ELSE b
Header(e, deg, start) == e.whole /\ e.deg = deg /\ e.start = start /\ e.frozen = 0
Merge(e) ==
  /\ Header(e, e.R, e.med) /\ e.rows = Len(e.parts) /\ e.one = 1
  /\ e.meds = [s \in 1..Len(e.parts) |-> e.parts[s].ids[e.parts[s].med + 1]]
  /\ Len(e.g) = cur.n
  /\ \A p \in 0..(cur.n - 1) : \E u \in {Union(e, p)} :
       Distinct(e.g[p + 1]) /\ Set(e.g[p + 1]) \subseteq u /\ Len(e.g[p + 1]) = Least(e.R, Cardinality(u))
 
\* a graph file is read back as it was written, or refused; damage is never read as a graph
Sound(e) ==
  /\ e.hurt \notin {"frozen", "cut", "longer"}
  /\ e.cap > 0 /\ Len(e.l) > 0 /\ e.from < Len(e.l)
  /\ \A k \in 1..Len(e.l) : e.l[k] # <<>> /\ Len(e.l[k]) <= e.cap /\ \A v \in Set(e.l[k]) : v < Len(e.l) /\ v # k - 1
File(e) ==
  /\ IF Sound(e) THEN e.res = "ok" /\ e.g = e.l /\ e.deg = e.cap /\ e.start = e.from /\ e.frozen = 0 /\ e.count = Len(e.l)
     ELSE e.res = "error"
 
Has(s, w) == \E j \in 0..(Len(s) - Len(w)) : SubSeq(s, j + 1, j + Len(w)) = w
Dispatch(e) ==
  /\ IF e.R = 0 \/ e.L < e.R \/ e.a < 10 \/ e.samp > 10 THEN e.res = "error"
     ELSE \/ /\ e.res = "ok" /\ e.whole /\ e.deg = e.R /\ e.frozen = 0
             /\ WellFormed(e.g, cur.n, e.R, e.start)
             /\ (\A k \in 1..Len(e.g) : e.g[k] # <<>>) => e.read = "ok"
             /\ e.read # "differs"
             /\ e.pct > 100 => Linked(e.g)
          \/ /\ e.res = "error" /\ e.pct < 100     \* only a budget that cannot be met, or too small a sample
             /\ e.why \in {"partition path: sampled train/test too small (>=3 required). Increase sampling_rate or dataset size.",
                           "determine_num_parts_with_ram_budget: num_parts exceeds training sample size; increase sampling_rate or data size"}
 
Fresh(e) == cur' = [n |-> e.n, dim |-> e.dim, x |-> e.x]
===============================================================================

------------------------------- MODULE MCMerge -------------------------------
(* Merging shard graphs in one pass over the vectors: each shard is a stream of  *)
(* records in its own order, read by a cursor that moves when its next vector's   *)
(* turn comes.  Explored for every way to share out N vectors among shards and    *)
(* every shard graph; the output must be what the shards say, translated.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, R, Shared, Bad
S == 2
VARIABLES ids, g, cursor, p, sh, seen, nb, out
vars == <<ids, g, cursor, p, sh, seen, nb, out>>
Sorted(m) == SetToSortSeq(m, LAMBDA a, b : a < b)
Lists(k) == {<<>>} \cup {<<a>> : a \in 0..(k - 1)} \cup {<<a, b>> : a \in 0..(k - 1), b \in {0, k - 1}}
Rows(k) == IF k = 0 THEN {<<>>} ELSE [1..k -> Lists(k)]
Least(a, b) == IF a < b THEN a ELSE b
\* every vector in one or two shards
Init ==
  /\ \E own \in [0..(N - 1) -> {x \in SUBSET (1..S) : Cardinality(x) \in 1..2}] :
       /\ FoldLeft(LAMBDA t, v : t + Cardinality(own[v]), 0, [v \in 1..N |-> v - 1]) <= N + Shared
       /\ ids = [s \in 1..S |-> Sorted({v \in 0..(N - 1) : s \in own[v]})]
  /\ g \in {<<a, b>> : a \in Rows(Len(ids[1])), b \in Rows(Len(ids[2]))}
  /\ cursor = [s \in 1..S |-> 1] /\ p = 0 /\ sh = 1 /\ seen = {} /\ nb = <<>> /\ out = <<>>
Set(q) == {q[j] : j \in 1..Len(q)}
Take(s) ==   \* translate, drop the vector itself, drop repetitions
  FoldLeft(LAMBDA a, v : LET x == IF Bad = 2 THEN v ELSE ids[s][v + 1] IN
             IF x = p \/ (x \in a.seen /\ Bad # 3) THEN a ELSE [seen |-> a.seen \cup {x}, nb |-> Append(a.nb, x)],
           [seen |-> seen, nb |-> nb], g[s][cursor[s]])
Read ==
  /\ p < N /\ sh <= S
  /\ IF cursor[sh] <= Len(ids[sh]) /\ ids[sh][cursor[sh]] = p /\ (Bad # 4 \/ nb = <<>>)
     THEN \E t \in {Take(sh)} :
            /\ seen' = t.seen /\ nb' = t.nb
            /\ cursor' = [cursor EXCEPT ![sh] = IF Bad = 1 /\ g[sh][cursor[sh]] = <<>> THEN @ ELSE @ + 1]
     ELSE UNCHANGED <<seen, nb, cursor>>
  /\ sh' = sh + 1
  /\ UNCHANGED <<ids, g, p, out>>
\* the shuffle: any choice of R out of the list
Emit ==
  /\ p < N /\ sh > S
  /\ \E pick \in {q \in SUBSET (1..Len(nb)) : Cardinality(q) = Least(R, Len(nb))} :
       out' = Append(out, [j \in 1..Cardinality(pick) |-> nb[Sorted(pick)[j]]])
  /\ p' = p + 1 /\ sh' = 1 /\ seen' = {} /\ nb' = <<>>
  /\ UNCHANGED <<ids, g, cursor>>
Next == Read \/ Emit
Spec == Init /\ [][Next]_vars
Pos(s, v) == CHOOSE j \in 1..Len(ids[s]) : ids[s][j] = v
Says(v) == UNION {{ids[s][x + 1] : x \in Set(g[s][Pos(s, v)])} : s \in {s \in 1..S : v \in Set(ids[s])}} \ {v}
Faithful == \A k \in 1..Len(out) :
  /\ Set(out[k]) \subseteq Says(k - 1)
  /\ Cardinality(Set(out[k])) = Len(out[k])
  /\ Len(out[k]) = Least(R, Cardinality(Says(k - 1)))
Drained == p = N => \A s \in 1..S : cursor[s] = Len(ids[s]) + 1
=============================================================================

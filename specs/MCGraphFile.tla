----------------------------- MODULE MCGraphFile -----------------------------
(* A graph file as a stream of numbers, written and read section by section: the *)
(* entry points behind their count, the shape, the lists, the removal marks, and  *)
(* at the very end the layers above, told to be there only by the file not being  *)
(* over.  Explored for every small graph, loaded into objects of every past, and  *)
(* saved from there once more.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, K, L, Bad
VARIABLES g, o, f, w, r, sec, round, first
vars == <<g, o, f, w, r, sec, round, first>>
Over == {<<>>} \cup
  {[ep |-> e, lev |-> lv, l |-> [u \in 1..N |-> IF lv[u] = 0 THEN <<>> ELSE [j \in 1..(lv[u] * K) |-> IF j = lv[u] * K THEN x[u] ELSE -1]]] :
     e \in 0..(N - 1), lv \in [1..N -> 0..L], x \in [1..N -> {-1, N - 1}]}
\* edges vary in the first place of a list, the others stay free
Graphs(ovs) ==
  {[eps |-> e, n |-> N, k |-> K, rows |-> [u \in 1..N |-> [j \in 1..K |-> IF j = 1 THEN x[u] ELSE -1]], pos |-> p, valid |-> v, ov |-> t] :
     e \in {<<>>, <<0>>, <<N - 1, 0>>}, x \in [1..N -> {-1, 0, N - 1}], p \in {0, N}, v \in [1..N -> {0, 1}], t \in ovs}
Fresh == [eps |-> <<>>, n |-> 0, k |-> 0, rows |-> <<>>, pos |-> 0, valid |-> <<>>, ov |-> <<>>]
Used(t) == [eps |-> <<0, 1, 2>>, n |-> N + 1, k |-> K, rows |-> [u \in 1..(N + 1) |-> [j \in 1..K |-> 0]], pos |-> N + 1, valid |-> [u \in 1..(N + 1) |-> 1], ov |-> t]
Past == {Fresh, Used(<<>>), Used([ep |-> N, lev |-> [u \in 1..(N + 1) |-> 1], l |-> [u \in 1..(N + 1) |-> [j \in 1..K |-> 0]]])}
Init ==
  /\ g \in Graphs(Over) /\ o \in Past
  /\ f = <<>> /\ w = 1 /\ r = 1 /\ sec = 0 /\ round = 1 /\ first = <<>>
Flat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
OverStream(t) ==
  <<N, K, t.ep>> \o Flat([u \in 1..N |-> <<IF Bad = 4 THEN t.lev[u] ELSE t.lev[u] * K>> \o t.l[u]])
Section(x, s) ==
  CASE s = 1 -> <<Len(x.eps)>> \o x.eps
    [] s = 2 -> <<x.n, x.k>>
    [] s = 3 -> Flat(x.rows) \o <<x.pos>>
    [] s = 4 -> IF Bad = 3 THEN <<>> ELSE x.valid
    [] s = 5 -> IF x.ov = <<>> THEN (IF Bad = 1 THEN <<0>> ELSE <<>>) ELSE OverStream(x.ov)
Write == /\ w <= 5 /\ f' = f \o Section(g, w) /\ w' = w + 1
         /\ UNCHANGED <<g, o, r, sec, round, first>>
\* reading past the end gives nothing: the object keeps what it had
At(j) == IF r + j - 1 <= Len(f) THEN f[r + j - 1] ELSE -7
Slice(a, n) == [j \in 1..n |-> At(a + j - 1)]
Eps == /\ w = 6 /\ sec = 0
       /\ o' = [o EXCEPT !.eps = Slice(2, At(1))] /\ r' = r + 1 + At(1) /\ sec' = 1
       /\ UNCHANGED <<g, f, w, round, first>>
Shape == /\ sec = 1 /\ o' = [o EXCEPT !.n = At(1), !.k = At(2)] /\ r' = r + 2 /\ sec' = 2
         /\ UNCHANGED <<g, f, w, round, first>>
Rows == /\ sec = 2
        /\ o' = [o EXCEPT !.rows = [u \in 1..o.n |-> Slice((u - 1) * o.k + 1, o.k)], !.pos = At(o.n * o.k + 1)]
        /\ r' = r + o.n * o.k + 1 /\ sec' = 3 /\ UNCHANGED <<g, f, w, round, first>>
Marks == /\ sec = 3
         /\ IF Bad = 3 THEN o' = [o EXCEPT !.valid = [u \in 1..o.n |-> 1]] /\ r' = r
            ELSE o' = [o EXCEPT !.valid = Slice(1, o.n)] /\ r' = r + o.n
         /\ sec' = 4 /\ UNCHANGED <<g, f, w, round, first>>
Above ==
        /\ sec = 4
        /\ IF r > Len(f)
           THEN /\ o' = (IF Bad = 2 THEN o ELSE [o EXCEPT !.ov = <<>>]) /\ sec' = 100 /\ r' = r
           ELSE /\ o' = [o EXCEPT !.ov = [ep |-> At(3), lev |-> <<>>, l |-> <<>>]] /\ sec' = 5 /\ r' = r + 3
        /\ UNCHANGED <<g, f, w, round, first>>
Node == /\ sec >= 5 /\ sec < 5 + o.n
        /\ o' = [o EXCEPT !.ov.lev = Append(@, At(1) \div o.k), !.ov.l = Append(@, Slice(2, IF At(1) < 0 THEN 0 ELSE At(1)))]
        /\ r' = r + 1 + (IF At(1) < 0 THEN 0 ELSE At(1)) /\ sec' = sec + 1
        /\ UNCHANGED <<g, f, w, round, first>>
Done == w = 6 /\ (sec = 100 \/ (sec >= 5 /\ sec = 5 + o.n))
\* once more, from the copy into an object of some other past
Again == /\ Done /\ round = 1 /\ round' = 2 /\ first' = f
         /\ g' = o /\ o' \in Past /\ f' = <<>> /\ w' = 1 /\ r' = 1 /\ sec' = 0
Next == Write \/ Eps \/ Shape \/ Rows \/ Marks \/ Above \/ Node \/ Again
Spec == Init /\ [][Next]_vars
Same == Done => o = g
Drained == Done => r = Len(f) + 1
Stable == Done /\ round = 2 => f = first
==============================================================================

------------------------------ MODULE GraphFile ------------------------------
(* Graphs in memory, their overlay layers, and files they are saved to and       *)
(* loaded from; and whole indices, of which only this is specified: an index is  *)
(* a function of what was done to it, and saving and loading leave no mark.       *)
(* Nodes are numbered from 0, sequences from 1; -1 stands for no edge.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES gs,        \* name -> [n, k, rows, valid, pos, eps, ov]
          files,     \* file -> the same
          hs,        \* handle -> what was done to the index, numbered
          hfiles,    \* file -> likewise
          known,     \* what is known of those histories: [from, what, ans, to]
          last       \* the last history number given out
gvars == <<gs, files, hs, hfiles, known, last>>
Put1(m, k, v) == (k :> v) @@ m
NoOver == [on |-> FALSE, ep |-> 0, n |-> 0, k |-> 0, lev |-> <<>>, l |-> <<>>]
Blank(n, k) == [n |-> n, k |-> k, rows |-> [j \in 1..n |-> [x \in 1..k |-> -1]], valid |-> [j \in 1..n |-> 0], pos |-> 0, eps |-> <<>>, ov |-> NoOver]
Opaque == UNCHANGED <<hs, hfiles, known, last>>
Plain == UNCHANGED <<gs, files>>
GNew(e) == gs' = Put1(gs, e.g, Blank(e.n, e.k)) /\ UNCHANGED files /\ Opaque
GIns(e) ==
  LET g == gs[e.g] IN
  /\ IF g.pos < g.n THEN e.res = g.pos /\ gs' = [gs EXCEPT ![e.g].rows[g.pos + 1] = e.e, ![e.g].valid[g.pos + 1] = 1, ![e.g].pos = g.pos + 1]
     ELSE e.res = -1 /\ UNCHANGED gs
  /\ UNCHANGED files /\ Opaque
GUpd(e) ==
  LET g == gs[e.g] IN
  /\ IF g.valid[e.id + 1] = 1 THEN e.res = e.id /\ gs' = [gs EXCEPT ![e.g].rows[e.id + 1] = e.e]
     ELSE e.res = -1 /\ UNCHANGED gs
  /\ UNCHANGED files /\ Opaque
GRem(e) ==
  LET g == gs[e.g] IN
  /\ IF g.valid[e.id + 1] = 1 THEN e.res = e.id /\ gs' = [gs EXCEPT ![e.g].valid[e.id + 1] = 0]
     ELSE e.res = -1 /\ UNCHANGED gs
  /\ UNCHANGED files /\ Opaque
GEps(e) == gs' = [gs EXCEPT ![e.g].eps = e.eps] /\ UNCHANGED files /\ Opaque
GOver(e) == gs' = [gs EXCEPT ![e.g].ov = e.ov] /\ UNCHANGED files /\ Opaque
GSave(e) == files' = Put1(files, e.f, gs[e.g]) /\ UNCHANGED gs /\ Opaque
GLoad(e) == gs' = Put1(gs, e.g, files[e.f]) /\ UNCHANGED files /\ Opaque
GDump(e) ==
  LET g == gs[e.g] IN
  /\ e.n = g.n /\ e.k = g.k /\ e.rows = g.rows /\ e.valid = g.valid /\ e.eps = g.eps /\ e.ov = g.ov
  /\ UNCHANGED gvars
\* where a search starts: walking down the layers to ever nearer nodes, or all entry points
Dist(e, u) == e.d[(u % Len(e.d)) + 1]
OverRow(ov, lv, u) == SubSeq(ov.l[u + 1], (lv - 1) * ov.k + 1, lv * ov.k)
Upto(row) == IF \E j \in 1..Len(row) : row[j] = -1 THEN SubSeq(row, 1, (CHOOSE j \in 1..Len(row) : row[j] = -1 /\ \A x \in 1..(j - 1) : row[x] # -1) - 1) ELSE row
RECURSIVE Settle(_, _, _, _)
Settle(e, ov, lv, u) ==   \* one scan moves to the nearest of the list seen so far; scans repeat until nothing changes
  LET row == Upto(OverRow(ov, lv, u))
      w == FoldLeft(LAMBDA b, v : IF Dist(e, v) < Dist(e, b) THEN v ELSE b, u, row) IN
  IF w = u THEN u ELSE Settle(e, ov, lv, w)
RECURSIVE Descend(_, _, _, _)
Descend(e, ov, lv, u) == IF lv = 0 THEN u ELSE Descend(e, ov, lv - 1, Settle(e, ov, lv, u))
Set(s) == {s[j] : j \in 1..Len(s)}
GStart(e) ==
  LET g == gs[e.g] IN
  /\ IF g.ov.on THEN e.ep = g.ov.ep /\ e.ids = <<Descend(e, g.ov, g.ov.lev[g.ov.ep + 1], g.ov.ep)>>
     ELSE /\ e.ep = (IF g.eps = <<>> THEN -1 ELSE g.eps[1])
          /\ Set(e.ids) = Set(g.eps) /\ Cardinality(Set(e.ids)) = Len(e.ids)
          /\ \A j \in 1..(Len(e.ids) - 1) : Dist(e, e.ids[j]) <= Dist(e, e.ids[j + 1])
  /\ e.at = [j \in 1..Len(e.ids) |-> Dist(e, e.ids[j])]
  /\ UNCHANGED gvars
\* whole indices
HNew(e) == hs' = Put1(hs, e.h, [v |-> last + 1, cut |-> FALSE]) /\ last' = last + 1 /\ UNCHANGED <<gs, files, hfiles, known>>
HSave(e) == hfiles' = Put1(hfiles, e.f, hs[e.h]) /\ UNCHANGED <<gs, files, hs, known, last>>
HLoad(e) == hs' = Put1(hs, e.h, hfiles[e.f]) /\ UNCHANGED <<gs, files, hfiles, known, last>>
Seen(v, what) == {x \in known : x.v = v /\ x.what = what}
HFind(e) ==
  LET s == Seen(hs[e.h].v, "find " \o e.what) IN
  /\ \A x \in s : x.ans = <<e.ids, e.ds, e.size>>
  /\ known' = known \cup {[v |-> hs[e.h].v, what |-> "find " \o e.what, ans |-> <<e.ids, e.ds, e.size>>, to |-> 0]}
  /\ UNCHANGED <<gs, files, hs, hfiles, last>>
\* after a removal the repair of lists may take another way once the index has been reloaded
HAdd(e) ==
  LET s == Seen(hs[e.h].v, "add " \o e.what) IN
  IF s # {} /\ ~hs[e.h].cut
  THEN /\ \A x \in s : x.ans = <<e.res>>
       /\ hs' = [hs EXCEPT ![e.h].v = (CHOOSE x \in s : TRUE).to]
       /\ UNCHANGED <<gs, files, hfiles, known, last>>
  ELSE /\ \A x \in s : x.ans = <<e.res>>
       /\ last' = last + 1
       /\ hs' = [hs EXCEPT ![e.h].v = last + 1]
       /\ known' = known \cup {[v |-> hs[e.h].v, what |-> "add " \o e.what, ans |-> <<e.res>>, to |-> last + 1]}
       /\ UNCHANGED <<gs, files, hfiles>>
HDel(e) ==
  LET s == Seen(hs[e.h].v, "del " \o ToString(e.id)) IN
  /\ IF s # {} THEN hs' = [hs EXCEPT ![e.h] = [v |-> (CHOOSE x \in s : TRUE).to, cut |-> TRUE]] /\ UNCHANGED <<known, last>>
     ELSE /\ last' = last + 1
          /\ hs' = [hs EXCEPT ![e.h] = [v |-> last + 1, cut |-> TRUE]]
          /\ known' = known \cup {[v |-> hs[e.h].v, what |-> "del " \o ToString(e.id), ans |-> <<>>, to |-> last + 1]}
  /\ UNCHANGED <<gs, files, hfiles>>
None == [x \in {} |-> 0]
Fresh == gs' = None /\ files' = None /\ hs' = None /\ hfiles' = None /\ known' = {} /\ last' = 0
==============================================================================

------------------------------ MODULE DiskAnn -------------------------------
(* The updatable disk index as a map from labels to vectors, together with   *)
(* the neighbour lists that decide what a search can reach.                  *)
(*                                                                           *)
(* A vector is given by its first components (they repeat with period 4).    *)
(* lab: label -> slot; vec: label -> vector; free: released slots.           *)
(* G: slot -> neighbour list, as last seen in the file; valid for the        *)
(* current content while op = "none".  rem: the lists removed nodes had,     *)
(* used to reconnect their neighbours.  op: what happened since G was seen.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES dim, deg, lab, vec, next, free, sure, G, rem, remk, med, op, ld, pq, ops, fires, maybe, open
dvars == <<dim, deg, lab, vec, next, free, sure, G, rem, remk, med, op, ld, pq, ops, fires, maybe, open>>
Reserved == 1000000
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Weight(i) == ((dim - i) \div 4) + 1
Dist(a, b) == FoldLeft(LAMBDA s, i : s + (Weight(i) * (a[i] - b[i]) * (a[i] - b[i])), 0, [i \in 1..Len(a) |-> i])
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
Live(st) == {st.lab[l] : l \in DOMAIN st.lab}
Cur == [lab |-> lab, vec |-> vec, next |-> next, free |-> free, sure |-> sure, ops |-> ops, fires |-> fires]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
LabelAt(st, s) == CHOOSE l \in DOMAIN st.lab : st.lab[l] = s
\* ---------------------------------------------------------------- updates: effect on a state record
\* which slots may be handed out for n insertions
AllocOk(st, ss, n) ==
  /\ Len(ss) = n /\ Distinct(ss)
  /\ ~st.sure \/ (IF Cardinality(st.free) >= n THEN ToSet(ss) \subseteq st.free
                  ELSE ToSet(ss) = st.free \cup (st.next..(st.next + n - Cardinality(st.free) - 1)))
Inserted(st, ls, vs, ss) ==
  [st EXCEPT !.lab = [l \in DOMAIN @ \cup ToSet(ls) |-> IF l \in DOMAIN @ THEN @[l] ELSE ss[CHOOSE k \in 1..Len(ls) : ls[k] = l]],
             !.vec = [l \in DOMAIN @ \cup ToSet(ls) |-> IF l \in DOMAIN @ THEN @[l] ELSE vs[CHOOSE k \in 1..Len(ls) : ls[k] = l]],
             !.next = Larger(@, 1 + FoldLeft(LAMBDA m, s : Larger(m, s), -1, ss)),
             !.free = @ \ ToSet(ss), !.ops = IF ls = <<>> THEN @ ELSE 0]
Fire(st) == ld.snops <= st.ops /\ Cardinality(st.free) * 100 >= ld.ratio * st.next
Removed(st, ls) ==
  LET s2 == [st EXCEPT !.lab = Drop(@, ls), !.vec = Drop(@, ls), !.free = @ \cup {st.lab[l] : l \in ls}, !.ops = @ + Cardinality(ls)]
  IN IF Fire(s2) THEN [s2 EXCEPT !.ops = 0, !.fires = @ + 1] ELSE s2
Refuse(st, ls) == ~Distinct(ls) \/ \E k \in 1..Len(ls) : ls[k] = Reserved \/ ls[k] \in DOMAIN st.lab
Dead(st, s) == s >= st.next \/ s \notin Live(st)
\* The answers an update may give, and the state after it if it succeeds.
Answer(st, u) ==
  CASE u.op = "insert"   -> IF Refuse(st, <<u.l>>) THEN {"invalid"} ELSE {"ok"}
    [] u.op = "binsert"  -> IF u.ls = <<>> THEN {"ok"} ELSE IF u.bs = 0 \/ Refuse(st, u.ls) THEN {"invalid"} ELSE {"ok"}
    [] u.op = "remove"   -> IF Dead(st, u.s) THEN {"invalid"} ELSE {"ok"}
    [] u.op = "removel"  -> IF u.l \in DOMAIN st.lab THEN {"ok"} ELSE {"range"}
    [] u.op = "bremove"  -> IF ~Distinct(u.ss) \/ \E k \in 1..Len(u.ss) : Dead(st, u.ss[k]) THEN {"invalid"} ELSE {"ok"}
    [] u.op = "bremovel" -> LET bad == (IF Distinct(u.ls) THEN {} ELSE {"invalid"}) \cup (IF \A k \in 1..Len(u.ls) : u.ls[k] \in DOMAIN st.lab THEN {} ELSE {"range"})
                            IN IF bad = {} THEN {"ok"} ELSE bad
Slots(st, u, ss) == CASE u.op = "insert" -> AllocOk(st, ss, 1) [] u.op = "binsert" -> AllocOk(st, ss, Len(u.ls)) [] OTHER -> ss = <<>>
After(st, u, ss) ==
  CASE u.op = "insert"   -> Inserted(st, <<u.l>>, <<u.v>>, ss)
    [] u.op = "binsert"  -> Inserted(st, u.ls, u.vs, ss)
    [] u.op = "remove"   -> Removed(st, {LabelAt(st, u.s)})
    [] u.op = "removel"  -> Removed(st, {u.l})
    [] u.op = "bremove"  -> IF u.ss = <<>> THEN st ELSE Removed(st, {LabelAt(st, s) : s \in ToSet(u.ss)})
    [] u.op = "bremovel" -> IF u.ls = <<>> THEN st ELSE Removed(st, ToSet(u.ls))
Counts(st, e) ==
  /\ e.live = Cardinality(DOMAIN st.lab) /\ e.size = e.live
  /\ st.sure => e.top = st.next /\ e.tomb = Cardinality(st.free) /\ e.free = Cardinality(st.free) /\ e.fires = st.fires
Set(st) == lab' = st.lab /\ vec' = st.vec /\ next' = st.next /\ free' = st.free /\ sure' = st.sure /\ ops' = st.ops /\ fires' = st.fires
\* ---------------------------------------------------------------- the graph
Lists(g) == [s \in 0..(Len(g) - 1) |-> g[s + 1]]
RECURSIVE Grow(_, _, _)
Grow(g, live, S) ==
  LET T == S \cup UNION {{n \in ToSet(g[s]) : n \in live /\ n \in DOMAIN g} : s \in S}
  IN IF T = S THEN S ELSE Grow(g, live, T)
\* live slots a search can reach: it starts at the entry point, even if that is removed, and passes through live nodes only
Reach(g, live) == Grow(g, live, {med}) \cap live
WellFormed(g, live, n) ==
  \A s \in live : Distinct(g[s]) /\ s \notin ToSet(g[s]) /\ Len(g[s]) <= deg /\ \A x \in ToSet(g[s]) : x < n
\* What reconnecting node n considers: the new edges, its live neighbours, and up to five live neighbours of each removed one.
Candidates(n, extra, old, live, rm) ==
  LET Push(acc, v) == IF v # n /\ v \in live /\ ~Contains(acc, v) THEN Append(acc, v) ELSE acc
      Through(acc, d) ==
        FoldLeft(LAMBDA p, o : IF p[2] >= 5 \/ o = n \/ o \notin live THEN p ELSE <<Push(p[1], o), p[2] + 1>>, <<acc, 0>>, rm[d])[1]
      Step(acc, v) == IF v = n THEN acc
                      ELSE IF v \in live THEN Push(acc, v)
                      ELSE IF v \in DOMAIN rm THEN Through(acc, v) ELSE acc
  IN FoldLeft(Step, FoldLeft(Push, <<>>, extra), old)
VecAt(st, s) == st.vec[LabelAt(st, s)]
Reconnected(st, new, cand) ==
  IF Len(cand) <= deg THEN Distinct(new) /\ ToSet(new) = ToSet(cand)
  ELSE Len(new) \in 1..deg /\ Distinct(new) /\ ToSet(new) \subseteq ToSet(cand)
Frozen(g, h, but) == \A s \in DOMAIN g \ but : h[s] = g[s]
\* Whether g can become h by one update (st, st2: before and after).
Covers(n) == (IF ld.ul = 0 THEN deg + 32 ELSE ld.ul) >= n
InsertGraph(g, h, st, st2, u, s) ==
  LET live == Live(st)
      live2 == Live(st2)
      R == Reach(g, live)
      rm == Drop(rem, {s})
      near == SortSeq(SetToSeq({<<Dist(u.v, VecAt(st, x)), x>> : x \in R}), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
      sel == ToSet(h[s])
      targets == IF sel = {} /\ s # med THEN {med} ELSE sel            \* a node that found nobody hangs on the entry point
  IN /\ IF ~Covers(st.next) THEN sel \subseteq R /\ Distinct(h[s])
        ELSE IF ld.prune \/ (pq /\ ~ld.rerank) THEN sel \subseteq R /\ Distinct(h[s]) /\ (R # {} => sel # {})
        ELSE Distinct(h[s]) /\ sel = {near[k][2] : k \in 1..Smaller(deg, Len(near))}
     /\ \A n \in targets : Reconnected(st2, h[n], Candidates(n, <<s>>, g[n], live2, rm))
     /\ Frozen(g, h, targets \cup {s})
RemoveGraph(g, h, st, st2, u) ==
  LET live2 == Live(st2)
      hit == IF st2.fires = st.fires THEN {} ELSE UNION {{x \in ToSet(rem[d]) : x \in live2} : d \in DOMAIN rem}
  IN /\ \A n \in hit : h[n] = SelectSeq(g[n], LAMBDA x : x \in live2)
     /\ Frozen(g, h, hit)
\* several insertions at once, while every list has room for everybody: all links are mutual, none is lost, and the new nodes
\* can be reached (unless one of them takes over the place of a removed entry point, whose links go with it)
BatchGraph(g, h, st, st2) ==
  LET live == Live(st)
      live2 == Live(st2)
      new == live2 \ live
  IN /\ \A s \in new : ToSet(h[s]) \subseteq live2
     /\ (st2.next - 1 <= deg) =>
          /\ \A s \in live : \A x \in ToSet(g[s]) : x \in live => x \in ToSet(h[s])
          /\ \A s \in new : \A x \in ToSet(h[s]) : s \in ToSet(h[x])
          /\ (Covers(st2.next) /\ med \notin new) => new \subseteq Reach(h, live2)
Evolves(g, h, o) ==
  CASE o.kind = "none" -> h = g
    [] o.kind = "update" /\ ~o.known -> TRUE
    [] o.kind = "update" /\ o.u.op \in {"remove", "removel", "bremove", "bremovel"} -> RemoveGraph(g, h, o.st, o.st2, o.u)
    [] o.kind = "update" /\ o.u.op = "insert" -> InsertGraph(g, h, o.st, o.st2, o.u, o.ss[1])
    [] o.kind = "update" /\ o.u.op = "binsert" ->
         IF Len(o.u.ls) = 1 THEN InsertGraph(g, h, o.st, o.st2, [v |-> o.u.vs[1]], o.ss[1]) ELSE BatchGraph(g, h, o.st, o.st2)
    [] o.kind = "node" /\ ~o.known -> TRUE
    [] o.kind = "node" -> Reconnected(Cur, h[o.s], Candidates(o.s, <<>>, g[o.s], Live(Cur), rem)) /\ Frozen(g, h, {o.s})
    [] OTHER -> TRUE
\* ---------------------------------------------------------------- events
Fresh == [kind |-> "none"]
Many == [kind |-> "many"]
Reset == /\ dim' = 1 /\ deg' = 1 /\ lab' = <<>> /\ vec' = <<>> /\ next' = 0 /\ free' = {} /\ sure' = TRUE /\ G' = <<>> /\ rem' = <<>> /\ remk' = TRUE
         /\ med' = 0 /\ op' = Many /\ ld' = <<>> /\ pq' = FALSE /\ ops' = 0 /\ fires' = 0 /\ maybe' = <<>> /\ open' = "none"
Built == open # "none"
Build(e) ==
  LET u == e.in
      n == Len(u.ls)
      good == n > 0 /\ ~Refuse([lab |-> <<>>], u.ls) /\ (u.pq = 0 \/ u.dim % u.pq = 0) /\ (u.cap = 0 \/ u.cap >= u.r)
  IN IF Built THEN e.res = (IF good \/ n > 0 THEN e.res ELSE "invalid") /\ e.res # "ok" /\ e.dir /\ UNCHANGED dvars
     ELSE IF ~good THEN e.res = "invalid" /\ ~e.dir /\ UNCHANGED dvars
     ELSE /\ e.res = "ok" /\ e.dir
          /\ dim' = u.dim /\ deg' = (IF u.cap = 0 THEN u.r ELSE u.cap)
          /\ lab' = [l \in ToSet(u.ls) |-> (CHOOSE k \in 1..n : u.ls[k] = l) - 1]
          /\ vec' = [l \in ToSet(u.ls) |-> u.vs[CHOOSE k \in 1..n : u.ls[k] = l]]
          /\ next' = n /\ free' = {} /\ sure' = TRUE /\ G' = <<>> /\ rem' = <<>> /\ remk' = TRUE /\ med' = 0 /\ op' = Many /\ ld' = <<>>
          /\ pq' = (u.pq > 0) /\ ops' = 0 /\ fires' = 0 /\ maybe' = <<>> /\ open' = "closed"
Load(e) ==
  IF ~Built THEN e.res = "error" /\ UNCHANGED dvars
  ELSE IF e.in.upd /\ (e.in.it = 0 \/ e.in.rt = 0) THEN e.res = "invalid" /\ open' = "broken" /\ UNCHANGED <<dim, deg, lab, vec, next, free, sure, G, rem, remk, med, op, ld, pq, ops, fires, maybe>>
  ELSE /\ e.res = "ok" /\ (\E st \in {[Cur EXCEPT !.ops = 0, !.fires = 0, !.sure = TRUE]} : (IF sure THEN Counts([st EXCEPT !.fires = e.fires], e) ELSE e.live = Cardinality(DOMAIN lab)) = TRUE)
       /\ e.dim = dim /\ e.upd = e.in.upd /\ e.pq = pq
       /\ open' = (IF e.in.upd THEN "rw" ELSE "ro") /\ ld' = e.in /\ rem' = <<>> /\ remk' = TRUE /\ ops' = 0 /\ fires' = e.fires
       /\ op' = (IF op.kind = "none" THEN op ELSE Many)
       /\ UNCHANGED <<dim, deg, lab, vec, next, free, sure, G, med, pq, maybe>>
Unload == open' = (IF Built THEN "closed" ELSE "none") /\ UNCHANGED <<dim, deg, lab, vec, next, free, sure, G, rem, remk, med, op, ld, pq, ops, fires, maybe>>
Update(e) ==
  LET u == e.in IN
  IF open # "rw" THEN e.res \in {"error", "invalid"} /\ UNCHANGED dvars
  ELSE \E want \in {Answer(Cur, u)} :
    IF e.res # "ok"
    THEN /\ e.res \in want \/ (e.fault /\ e.res = "error" /\ "ok" \in want)
         /\ IF e.res = "error" /\ "ok" \in want
            THEN \* a device error: insertions and removals of this call may or may not have happened
                 /\ maybe' = (CASE u.op = "insert" -> (u.l :> [in |-> TRUE, v |-> u.v])
                                [] u.op = "binsert" -> [l \in ToSet(u.ls) |-> [in |-> TRUE, v |-> u.vs[CHOOSE k \in 1..Len(u.ls) : u.ls[k] = l]]]
                                [] u.op = "remove" -> (LabelAt(Cur, u.s) :> [in |-> FALSE])
                                [] u.op = "removel" -> (u.l :> [in |-> FALSE])
                                [] u.op = "bremove" -> [l \in {LabelAt(Cur, s) : s \in ToSet(u.ss)} |-> [in |-> FALSE]]
                                [] u.op = "bremovel" -> [l \in ToSet(u.ls) |-> [in |-> FALSE]])
                 /\ sure' = FALSE /\ op' = Many /\ remk' = FALSE
                 /\ UNCHANGED <<dim, deg, lab, vec, next, free, G, rem, med, ld, pq, ops, fires, open>>
            ELSE UNCHANGED dvars /\ (Counts(Cur, e) = TRUE)
    ELSE /\ "ok" \in want /\ (Slots(Cur, u, e.slots) = TRUE)
         /\ \E st \in {Cur} : \E st2 \in {After(Cur, u, e.slots)} :
              /\ (Counts(st2, e) = TRUE)
              /\ Set(st2)
              /\ op' = (IF op.kind = "none" /\ sure /\ st2 # st THEN [kind |-> "update", u |-> u, ss |-> e.slots, st |-> st, st2 |-> st2, known |-> remk] ELSE IF st2 = st THEN op ELSE Many)
              /\ \E gone \in {IF sure THEN {st.lab[l] : l \in DOMAIN st.lab \ DOMAIN st2.lab} ELSE {}} :
                   /\ remk' = (remk /\ (gone = {} \/ (op.kind = "none" /\ sure)))
                   /\ rem' = (IF gone = {} THEN Drop(rem, ToSet(e.slots))
                              ELSE IF op.kind = "none" /\ sure THEN [s \in DOMAIN rem \cup gone |-> IF s \in gone THEN G[s] ELSE rem[s]] ELSE rem)
         /\ UNCHANGED <<dim, deg, G, med, ld, pq, maybe, open>>
UpdateNode(e) ==
  IF open # "rw" THEN e.res = "error" /\ UNCHANGED dvars
  ELSE IF Dead(Cur, e.in.s) /\ sure THEN e.res = "invalid" /\ UNCHANGED dvars
  ELSE /\ e.res = "ok" \/ ~sure
       /\ (Counts(Cur, e) = TRUE)
       /\ op' = (IF op.kind = "none" /\ sure THEN [kind |-> "node", s |-> e.in.s, known |-> remk] ELSE Many)
       /\ UNCHANGED <<dim, deg, lab, vec, next, free, sure, G, rem, remk, med, ld, pq, ops, fires, maybe, open>>
Flush(e) ==
  /\ e.res = (IF open = "rw" THEN "ok" ELSE "error")
  /\ open = "rw" => Counts(Cur, e)
  /\ UNCHANGED dvars
\* which labels are held after a device error
Has(e) ==
  IF open \notin {"rw", "ro"} THEN UNCHANGED dvars ELSE
  /\ \E yes \in {{e.in.ls[k] : k \in {j \in 1..Len(e.in.ls) : e.has[j]}}} :
       /\ \A l \in ToSet(e.in.ls) \ DOMAIN maybe : (l \in yes) = (l \in DOMAIN lab)
       /\ DOMAIN maybe \subseteq ToSet(e.in.ls)
       /\ \E in \in {{l \in DOMAIN maybe : maybe[l].in /\ l \in yes}} : \E gone \in {{l \in DOMAIN maybe : ~maybe[l].in /\ l \notin yes}} :
            /\ lab' = [l \in (DOMAIN lab \cup in) \ gone |-> IF l \in DOMAIN lab THEN lab[l] ELSE -1]
            /\ vec' = [l \in (DOMAIN lab \cup in) \ gone |-> IF l \in DOMAIN lab THEN vec[l] ELSE maybe[l].v]
  /\ maybe' = <<>>
  /\ e.live = Cardinality(DOMAIN lab') /\ e.size = e.live
  /\ (sure => (\A k \in 1..Len(e.in.ss) : e.dead[k] = (e.in.ss[k] \in free)) /\ Counts(Cur, e)) = TRUE
  /\ UNCHANGED <<dim, deg, next, free, sure, G, rem, remk, med, op, ld, pq, ops, fires, open>>
Graph(e) ==
  IF open # "rw" THEN e.res = "error" /\ UNCHANGED dvars
  ELSE /\ e.res = "ok" /\ (Counts(Cur, e) = TRUE)
       /\ \E h \in {Lists(e.g)} :
            /\ sure => /\ Len(e.g) = next /\ Len(e.dead) = next /\ Len(e.v) = next
                       /\ (\A s \in 0..(next - 1) : e.dead[s + 1] = (s \in free)) = TRUE
                       /\ (\A l \in DOMAIN lab : e.v[lab[l] + 1] = vec[l]) = TRUE
                       /\ (WellFormed(h, Live(Cur), next)) = TRUE
                       /\ (op.kind = "many" \/ Evolves(G, h, op)) = TRUE
            /\ G' = h /\ op' = (IF sure THEN Fresh ELSE Many) /\ med' = e.medoid
            /\ (op.kind # "many" => e.medoid = med) = TRUE
       /\ UNCHANGED <<dim, deg, lab, vec, next, free, sure, rem, remk, ld, pq, ops, fires, maybe, open>>
\* ---------------------------------------------------------------- searches
Ascending(row) == \A k \in 1..(Len(row) - 1) : row[k].d <= row[k + 1].d
LabelsOf(row) == {row[k].l : k \in 1..Len(row)}
Exhaustive(q, top) == IF ~(pq /\ q.pq) THEN TRUE
                 ELSE IF q.kind = "pipe" THEN TRUE
                 ELSE q.rerank /\ (IF q.rc = 0 THEN 3 * q.k ELSE q.rc) >= top
Sound(row, q, v) ==
  /\ Len(row) <= q.k /\ Ascending(row) /\ Cardinality(LabelsOf(row)) = Len(row)
  /\ \A k \in 1..Len(row) : row[k].l \in DOMAIN vec /\ row[k].d = Dist(v, vec[row[k].l])
\* how many results are asked for: with compressed vectors and re-ranking, no more than the re-ranked ones
Asked(q) == IF pq /\ q.pq /\ q.rerank THEN Smaller(q.k, IF q.rc = 0 THEN 3 * q.k ELSE q.rc) ELSE q.k
Nearest(row, q, v, S) ==                                              \* S: labels that can be reached
  /\ LabelsOf(row) \subseteq S /\ Len(row) = Smaller(Asked(q), Cardinality(S))
  /\ Exhaustive(q, next) => \A l \in S \ LabelsOf(row) : Dist(v, vec[l]) >= row[Len(row)].d
Good(row, q, v) ==
  /\ Sound(row, q, v)
  /\ op.kind = "none" /\ sure /\ Larger(q.L, q.k) >= next =>
       \E R \in {Reach(G, Live(Cur))} : Nearest(row, q, v, {l \in DOMAIN lab : lab[l] \in R})
Search(e) ==
  LET q == e.in
      refused == CASE open \in {"none", "closed", "broken"} -> {"error"}
                   [] q.k = 0 -> {"invalid"}
                   [] q.kind = "pipe" /\ q.rerank -> {"invalid"}
                   [] q.kind = "pipe" /\ (open # "rw" \/ ld.io = 1) -> {"error"}
                   [] OTHER -> {}
  IN IF refused # {} /\ ~(q.kind = "one" /\ q.qs = <<>>) THEN e.res \in refused
     ELSE IF e.res # "ok" THEN e.fault
     ELSE /\ Len(e.rows) = Len(q.qs)
          /\ maybe = <<>> => \A k \in 1..Len(e.rows) : Good(e.rows[k], q, q.qs[k])
\* ---------------------------------------------------------------- searches beside updates
\* states: before the first update, after each; life of a label: which writes began and ended it
Par(e) ==
  IF open # "rw" THEN (\A k \in 1..Len(e.writes) : e.writes[k].res = "error") /\ (\A k \in 1..Len(e.reads) : e.reads[k].res = "error") /\ UNCHANGED dvars ELSE
  /\ sure /\ maybe = <<>>
  /\ LET us == e.in.us
         q == e.in
         n == Len(us)
     IN /\ Len(e.writes) = n
        /\ \E sts \in {FoldLeft(LAMBDA acc, k :
                         IF acc = <<>> THEN <<>>
                         ELSE LET st == acc[Len(acc)]
                                  w == e.writes[k]
                                  want == Answer(st, us[k])
                              IN IF w.res \notin want \/ (w.res = "ok" /\ ~Slots(st, us[k], w.slots)) THEN <<>>
                                 ELSE Append(acc, IF w.res = "ok" THEN After(st, us[k], w.slots) ELSE st), <<Cur>>, [k \in 1..n |-> k])} :
             /\ sts # <<>>
             /\ (Counts(sts[n + 1], e) = TRUE)
             /\ (\A r \in 1..Len(e.reads) :
                   LET rd == e.reads[r]
                       done == Cardinality({k \in 1..n : e.writes[k].e < rd.s})          \* updates that had returned
                       begun == Cardinality({k \in 1..n : e.writes[k].s < rd.e})
                       seen == {sts[k] : k \in (done + 1)..(begun + 1)}                   \* contents during the search
                       RowOk(row, v) ==
                         /\ Len(row) <= q.k /\ Ascending(row) /\ Cardinality(LabelsOf(row)) = Len(row)
                         /\ \A k \in 1..Len(row) : \E st \in seen : row[k].l \in DOMAIN st.vec /\ row[k].d = Dist(v, st.vec[row[k].l])
                       last == sts[n + 1]
                       \* what stays throughout: never removed, so reachable all the time if every list has room
                       stay == {l \in DOMAIN lab : \A k \in 1..(n + 1) : l \in DOMAIN sts[k].lab /\ sts[k].lab[l] = lab[l]}
                       room == op.kind = "none" /\ last.next - 1 <= deg /\ Larger(q.L, q.k) >= last.next /\ Covers(last.next)
                               /\ (\E l \in stay : lab[l] = med) /\ Exhaustive(q, last.next) /\ ~ld.prune
                       R == Reach(G, {lab[l] : l \in stay})
                       must == {l \in stay : lab[l] \in R}
                               \cup {l \in DOMAIN sts[done + 1].lab \ DOMAIN lab : \A k \in (done + 1)..(n + 1) : l \in DOMAIN sts[k].lab /\ sts[k].lab[l] = sts[done + 1].lab[l]}
                       Full(row, v) == room => \A l \in must : l \in LabelsOf(row) \/ (Len(row) = Asked(q) /\ Dist(v, last.vec[l]) >= row[Len(row)].d)
                       qv(j) == q.qs[(((rd.q - 1) + (j - 1)) % Len(q.qs)) + 1]
                   IN /\ rd.res = "ok"
                      /\ Len(rd.rows) = (IF q.kind = "one" THEN 1 ELSE 2)
                      /\ \A j \in 1..Len(rd.rows) : RowOk(rd.rows[j], qv(j)) /\ Full(rd.rows[j], qv(j))) = TRUE
             /\ Set(sts[n + 1])
  /\ op' = Many /\ remk' = FALSE
  /\ UNCHANGED <<dim, deg, G, rem, med, ld, pq, maybe, open>>
=============================================================================

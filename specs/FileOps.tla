-------------------------------- MODULE FileOps --------------------------------
(* A directory of files, directories and links as the library's file helpers,     *)
(* its memory map and its two I/O engines use it: what each operation returns and *)
(* leaves behind, also when system calls are cut short, interrupted or fail, and  *)
(* in which order data and names have to reach the disk.                          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
Names == {"a", "b", "c", "d", "e"}
None == [k |-> "none"]
Dir == [k |-> "dir"]
\* contents are pieces laid over one another: [at, n, seed]; a seed of -1 means zeros
Pat(seed, i) == (seed * 31 + i * 7 + (i \div 251) * 13) % 251
File(seed, n) == [k |-> "file", len |-> n, ps |-> <<[at |-> 0, n |-> n, seed |-> seed]>>]
ByteAt(f, i) ==
  LET over == SelectSeq(f.ps, LAMBDA p : p.at <= i /\ i < p.at + p.n)
      p == over[Len(over)]
  IN IF p.seed < 0 THEN 0 ELSE Pat(p.seed, i - p.at)
Sampled(f, from, at) == \A k \in 1..Len(at) : at[k][2] = ByteAt(f, from + at[k][1])
Resize(f, n) == [f EXCEPT !.len = n, !.ps = IF n > f.len THEN Append(f.ps, [at |-> f.len, n |-> n - f.len, seed |-> -1]) ELSE f.ps]
Write(f, at, n, seed) ==
  IF n = 0 THEN f
  ELSE LET g == IF at > f.len THEN Resize(f, at) ELSE f
       IN [g EXCEPT !.len = IF at + n > g.len THEN at + n ELSE g.len, !.ps = Append(g.ps, [at |-> at, n |-> n, seed |-> seed])]
VARIABLES fs, eng
\* ---------------------------------------------------------------- what the calls say
Has(e, c) == \E j \in 1..Len(e.sys) : e.sys[j][1] = c
Failed(e) == Has(e, "fail")
At(e, c, n) == {j \in 1..Len(e.sys) : e.sys[j][1] = c /\ e.sys[j][2] = n}
Synced(e, n) == \E j \in At(e, "fsync", n) : \A i \in At(e, "write", n) \cup At(e, "start", n) : i < j
Quiet(e) == ~Has(e, "write") /\ ~Has(e, "start") /\ ~Has(e, "rename") /\ ~Has(e, "unlink")
Same == UNCHANGED fs
Keep == UNCHANGED <<fs, eng>>
Ok(e, cond) == e.res = (IF (cond) /\ ~Failed(e) THEN "ok" ELSE "err")
\* ---------------------------------------------------------------- writing and replacing
Put(e) ==
  LET f == fs[e.n] may == f.k \in {"none", "file"} IN
  /\ Ok(e, may)
  /\ IF e.res = "ok"
     THEN /\ Synced(e, e.n) /\ e.left = e.len /\ ~Has(e, "unlink")
          /\ fs' = [fs EXCEPT ![e.n] = File(e.seed, e.len)]
     ELSE IF ~may \/ At(e, "start", e.n) = {}
     THEN e.left = (IF f.k = "file" THEN f.len ELSE -1) /\ Same
     ELSE e.left \in 0..e.len /\ fs' = [fs EXCEPT ![e.n] = File(e.seed, e.left)]
  /\ UNCHANGED eng
Renames(f, g) == f.k # "none" /\ (IF f.k = "dir" THEN g.k \in {"none", "dir"} ELSE g.k # "dir")
Moved(e) == fs' = [fs EXCEPT ![e.m] = fs[e.n], ![e.n] = None]
\* replacing is one rename and nothing else: whoever looks, or a crash, finds the old or the new file
Swap(e) ==
  /\ Ok(e, fs[e.n].k # "none" /\ (e.n = e.m \/ Renames(fs[e.n], fs[e.m])))
  /\ \A j \in 1..Len(e.sys) : e.sys[j][1] \in {"fail", "fsync"} \/ e.sys[j] = <<"rename", e.n, 0, e.m>>
  /\ IF e.res = "ok" /\ e.n # e.m THEN Moved(e) ELSE Same
  /\ UNCHANGED eng
\* a competitor may have taken the name at the last moment: then it keeps it
Move(e) ==
  LET taken == e.race /\ fs[e.m].k = "none"
      cell == IF taken THEN File(999, 3) ELSE fs[e.m]
  IN /\ Ok(e, fs[e.n].k # "none" /\ cell.k = "none")
     /\ ~Has(e, "unlink") /\ ~Has(e, "start")
     /\ IF e.res = "ok" THEN Moved(e) ELSE fs' = [fs EXCEPT ![e.m] = IF e.took THEN File(999, 3) ELSE fs[e.m]]
     /\ e.took => taken
     /\ UNCHANGED eng
SyncDir(e) == /\ Ok(e, e.n = "." \/ fs[e.n].k = "dir") /\ Quiet(e)
              /\ e.res = "ok" => At(e, "fsync", e.n) # {}
              /\ Keep
SyncFile(e) == /\ Ok(e, fs[e.n].k \in {"file", "dir"}) /\ Quiet(e)
               /\ e.res = "ok" => At(e, "fsync", e.n) # {}
               /\ Keep
Trunc(e) == /\ e.ok = (fs[e.n].k = "file")
            /\ fs' = IF e.ok THEN [fs EXCEPT ![e.n] = Resize(fs[e.n], e.k)] ELSE fs
            /\ UNCHANGED eng
Link(e) == fs' = [fs EXCEPT ![e.n] = IF @.k = "none" THEN [k |-> "link", to |-> e.m] ELSE @] /\ UNCHANGED eng
\* ---------------------------------------------------------------- reading
Prefix(e) == LET f == fs[e.n] IN
  /\ Ok(e, f.k = "file" /\ f.len >= e.k) /\ Quiet(e)
  /\ e.res = "ok" => e.len = e.k /\ Sampled(f, 0, e.at)
  /\ Keep
Bounded(e) == LET f == fs[e.n] IN
  /\ Ok(e, f.k = "file" /\ f.len <= e.k) /\ Quiet(e)
  /\ e.res = "ok" => e.len = f.len /\ Sampled(f, 0, e.at)
  /\ Keep
Map(e) == LET f == fs[e.n] IN
  /\ Ok(e, f.k = "file" /\ f.len > 0) /\ Quiet(e)
  /\ e.res = "ok" => e.len = f.len /\ Sampled(f, 0, e.at) /\ e.eights = (IF f.len % 8 = 0 THEN 1 ELSE 0)
  /\ Keep
RECURSIVE Follow(_, _)
Follow(n, fuel) == IF fs[n].k # "link" THEN fs[n] ELSE IF fuel = 0 THEN None ELSE Follow(fs[n].to, fuel - 1)
Mkdir(e) == /\ Ok(e, fs[e.n].k = "none" \/ Follow(e.n, 6).k = "dir") /\ fs' = [fs EXCEPT ![e.n] = IF @.k = "none" THEN Dir ELSE @]
            /\ UNCHANGED eng
Look(e) == LET f == Follow(e.n, 6) IN
  /\ e.size = (IF f.k = "file" THEN f.len ELSE 987654) /\ e.regular = (f.k = "file")
  /\ Keep
List(e) == {e.names[j] : j \in 1..Len(e.names)} = {n \in Names : fs[n].k # "none"} /\ Keep
\* ---------------------------------------------------------------- engines
Available(f, q) == IF f.k # "file" \/ q.off >= f.len THEN 0 ELSE IF q.off + q.len > f.len THEN f.len - q.off ELSE q.len
Got(q, want) == IF eng.ring /\ eng.short > 0 THEN q.res \in 0..want ELSE q.res = want
Counts(e) ==
  /\ e.async = eng.ring
  /\ IF eng.ring THEN e.sub = Len(e.q) /\ e.done = Len(e.q)
     ELSE e.sub = Cardinality({j \in 1..Len(e.q) : e.q[j].res > 0}) /\ e.done = 0
  /\ \A j \in 1..Len(e.q) : e.good[j] = (e.q[j].res > 0 /\ e.q[j].res = e.q[j].len)
Reads(e) ==
  LET f == fs[e.n] IN
  /\ e.open = (f.k \in {"file", "dir"})
  /\ \A j \in 1..Len(e.q) : LET q == e.q[j] IN
       /\ q.clean
       /\ IF f.k # "file" THEN q.res < 0 \/ (f.k = "dir" /\ eng.short > 0 /\ q.res <= 0) ELSE Got(q, Available(f, q)) /\ Sampled(f, q.off, q.at)
Rd(e) == Counts(e) /\ Reads(e) /\ Keep
ARd(e) == /\ e.async = eng.ring
          /\ IF eng.ring THEN e.sub = Len(e.q) /\ e.done = Len(e.q) /\ Reads(e)
             ELSE e.sub = 0 /\ e.done = 0 /\ \A j \in 1..Len(e.q) : e.q[j].res = -999 /\ e.q[j].clean
          /\ Keep
Wr(e) ==
  LET f == fs[e.n] IN
  /\ Counts(e) /\ e.open = (f.k = "file")
  /\ \A j \in 1..Len(e.q) : IF f.k # "file" THEN e.q[j].res < 0 ELSE Got(e.q[j], e.q[j].len)
  /\ fs' = IF f.k # "file" THEN fs ELSE [fs EXCEPT ![e.n] = FoldLeft(LAMBDA g, q : Write(g, q.off, q.res, q.seed), f, e.q)]
  /\ UNCHANGED eng
Engine(e) == eng' = [ring |-> e.n = "ring", short |-> e.short] /\ UNCHANGED fs
Fresh == fs' = [n \in Names |-> None] /\ eng' = [ring |-> FALSE, short |-> 0]
================================================================================

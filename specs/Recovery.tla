------------------------------ MODULE Recovery ------------------------------
(* The design of the persistent collection: a write-ahead log of prepare and *)
(* commit frames, snapshots named by a CURRENT pointer, and a recovery that  *)
(* loads the current snapshot and replays the committed operations newer     *)
(* than it.  The process may die between any two steps, also half way        *)
(* through a log append.  What was acknowledged must survive.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Keys, Vals, MaxOps, MaxCrash, MaxSnap,
  CutTail,     \* the log is cut back to its readable part before it grows
  FitCovers,   \* the snapshot of a rebuilt index covers every operation seen
  SyncFirst,   \* log truncation only after CURRENT names the new snapshot
  Power,       \* deaths may be power losses: unsynced data is lost, too
  SyncCommit,  \* a commit frame is forced to stable storage before the call returns
  SyncSnap     \* snapshot files are forced to stable storage before CURRENT names them

None == "none"
NoMap == [k \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

VARIABLES
  log,      \* sequence of frames: [t |-> "P"|"C"|"T", op, m]; "T" is a torn frame
  snaps,    \* snapshot number -> [data, through]  (complete ones)
  cur,      \* the published snapshot number, 0 = none
  mem,      \* the running process' map
  pc, m, op,        \* what the process is doing, with which mutation and operation number
  next, committed, seen,  \* counters of the process
  todo,     \* records still to replay
  acked,    \* what was acknowledged (ghost)
  infl,     \* the operation in flight (ghost)
  dlog,     \* the log as stable storage has it
  soft,     \* snapshots whose files are not yet on stable storage
  crashes, nops, nsnap

disk == <<log, snaps, cur, dlog, soft>>
proc == <<mem, pc, m, op, next, committed, seen, todo>>
ghost == <<acked, infl, crashes, nops, nsnap>>
vars == <<disk, proc, ghost>>

NoM == [k |-> None, key |-> None, v |-> 0]
Muts == [k : {"insert", "upsert"}, key : Keys, v : Vals] \cup [k : {"remove"}, key : Keys, v : {0}]
Apply(f, x) == CASE x.k = "remove" -> Drop(f, x.key)
                 [] x.k = None -> f
                 [] OTHER -> Put(f, x.key, x.v)
Legal(f, x) == x.k = "insert" => x.key \notin DOMAIN f

(* ---- reading the log: everything in front of the first torn frame *)
Readable == LET bad == {i \in 1..Len(log) : log[i].t = "T"} IN
            IF bad = {} THEN log ELSE SubSeq(log, 1, (CHOOSE i \in bad : \A j \in bad : i <= j) - 1)
MaxSeen(through) == LET S == {Readable[i].op : i \in 1..Len(Readable)} \cup {through} IN
                    CHOOSE x \in S : \A y \in S : y <= x
(* Committed records newer than through, in operation order. *)
CommittedOps(through) ==
  {o \in through + 1 .. MaxSeen(through) :
     \E i, j \in 1..Len(Readable) : i < j /\ Readable[i].t = "P" /\ Readable[j].t = "C"
                                    /\ Readable[i].op = o /\ Readable[j].op = o}
MutOf(o) == LET i == CHOOSE i \in 1..Len(Readable) : Readable[i].t = "P" /\ Readable[i].op = o IN Readable[i].m
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<[op |-> x, m |-> MutOf(x)]>> \o InOrder(S \ {x})

Init ==
  /\ log = <<>> /\ snaps = [s \in {1} |-> [data |-> NoMap, through |-> 0]] /\ cur = 1 /\ dlog = <<>> /\ soft = {}
  /\ mem = NoMap /\ pc = "idle" /\ m = NoM /\ op = 0
  /\ next = 1 /\ committed = 0 /\ seen = 0 /\ todo = <<>>
  /\ acked = NoMap /\ infl = NoM /\ crashes = 0 /\ nops = 0 /\ nsnap = 1

(* ---- one mutation: prepare, apply, commit, return *)
Begin(x) ==
  /\ pc = "idle" /\ nops < MaxOps /\ Legal(mem, x)
  /\ nops' = nops + 1
  /\ m' = x /\ infl' = x /\ op' = next /\ next' = next + 1
  /\ pc' = "prepare"
  /\ UNCHANGED <<disk, mem, committed, seen, todo, acked, crashes, nsnap>>
(* Appending: a freshly opened log is first cut back to its readable part.    *)
Base == IF CutTail THEN Readable ELSE log
Prepare ==
  /\ pc = "prepare"
  /\ log' = Append(Base, [t |-> "P", op |-> op, m |-> m])
  /\ pc' = "apply"
  /\ UNCHANGED <<snaps, cur, dlog, soft, mem, m, op, next, committed, seen, todo, ghost>>
ApplyMem ==
  /\ pc = "apply"
  /\ mem' = Apply(mem, m) /\ pc' = "commit"
  /\ UNCHANGED <<disk, m, op, next, committed, seen, todo, ghost>>
Commit ==
  /\ pc = "commit"
  /\ log' = Append(Base, [t |-> "C", op |-> op, m |-> NoM])
  /\ committed' = op /\ seen' = IF op > seen THEN op ELSE seen
  /\ pc' = "return"
  /\ dlog' = IF SyncCommit THEN log' ELSE dlog
  /\ UNCHANGED <<snaps, cur, soft, mem, m, op, next, todo, ghost>>
Return ==
  /\ pc = "return"
  /\ acked' = Apply(acked, infl) /\ infl' = NoM /\ m' = NoM
  /\ pc' = "idle"
  /\ UNCHANGED <<disk, mem, op, next, committed, seen, todo, crashes, nops, nsnap>>

(* ---- a snapshot: write the files, move CURRENT, drop the log, drop old ones *)
StartSnap(after) ==
  /\ nsnap < MaxSnap
  /\ nsnap' = nsnap + 1
  /\ snaps' = [s \in DOMAIN snaps \cup {nsnap + 1} |->
                 IF s = nsnap + 1 THEN [data |-> mem, through |-> after] ELSE snaps[s]]
  /\ soft' = IF SyncSnap THEN soft ELSE soft \cup {nsnap + 1}
Save == /\ pc = "idle" /\ StartSnap(committed)
        /\ pc' = "publish"
        /\ UNCHANGED <<log, cur, dlog, mem, m, op, next, committed, seen, todo, acked, infl, crashes, nops>>
(* Rebuilding makes a new process state from the map and snapshots it. The    *)
(* counters are read anew from disk.                                          *)
Rebuild ==
  /\ pc = "idle"
  /\ LET s == MaxSeen(snaps[cur].through)
         c == IF FitCovers THEN s ELSE snaps[cur].through IN
     /\ seen' = s /\ committed' = c /\ next' = s + 1
     /\ StartSnap(c)
  /\ pc' = "publish"
  /\ UNCHANGED <<log, cur, dlog, mem, m, op, todo, acked, infl, crashes, nops>>
Publish ==
  /\ pc = "publish"
  /\ IF SyncFirst THEN cur' = nsnap /\ UNCHANGED log ELSE log' = <<>> /\ UNCHANGED cur
  /\ pc' = "droplog"
  /\ UNCHANGED <<snaps, dlog, soft, mem, m, op, next, committed, seen, todo, ghost>>
DropLog ==
  /\ pc = "droplog"
  /\ IF SyncFirst THEN log' = <<>> /\ UNCHANGED cur ELSE cur' = nsnap /\ UNCHANGED log
  /\ pc' = "cleanup"
  /\ UNCHANGED <<snaps, dlog, soft, mem, m, op, next, committed, seen, todo, ghost>>
Cleanup ==
  /\ pc = "cleanup"
  /\ snaps' = [s \in {cur} |-> snaps[cur]]
  /\ pc' = "idle"
  /\ UNCHANGED <<log, cur, dlog, soft, mem, m, op, next, committed, seen, todo, ghost>>

(* ---- dying and coming back *)
Crash ==
  /\ pc # "down" /\ crashes < MaxCrash
  /\ crashes' = crashes + 1
  /\ pc' = "down"
  /\ \/ /\ \/ log' = log
           \/ pc \in {"prepare", "commit"} /\ log' = Append(Base, [t |-> "T", op |-> 0, m |-> NoM])
        /\ UNCHANGED <<snaps, dlog, soft>>
     \/ /\ Power
        /\ \E w \in {dlog} \cup (IF IsPrefix(dlog, log) THEN {SubSeq(log, 1, n) : n \in Len(dlog)..Len(log)} ELSE {log}) :
             \E torn \in BOOLEAN :
               log' = IF torn /\ w # log THEN Append(w, [t |-> "T", op |-> 0, m |-> NoM]) ELSE w
        /\ dlog' = log'
        /\ snaps' = [s \in DOMAIN snaps |-> IF s \in soft THEN [snaps[s] EXCEPT !.data = NoMap] ELSE snaps[s]]
        /\ soft' = {}
  /\ mem' = NoMap /\ m' = NoM /\ op' = 0 /\ next' = 0 /\ committed' = 0 /\ seen' = 0 /\ todo' = <<>>
  /\ UNCHANGED <<cur, acked, infl, nops, nsnap>>
Load ==
  /\ pc = "down"
  /\ mem' = snaps[cur].data
  /\ committed' = snaps[cur].through
  /\ seen' = MaxSeen(snaps[cur].through) /\ next' = MaxSeen(snaps[cur].through) + 1
  /\ todo' = InOrder(CommittedOps(snaps[cur].through))
  /\ pc' = "replay"
  /\ UNCHANGED <<disk, m, op, ghost>>
Replay ==
  /\ pc = "replay" /\ todo # <<>>
  /\ LET r == Head(todo) IN
     IF Legal(mem, r.m)
     THEN /\ mem' = Apply(mem, r.m) /\ todo' = Tail(todo) /\ committed' = r.op
          /\ pc' = IF Len(todo) = 1 THEN "resnap" ELSE "replay"
     ELSE pc' = "stuck" /\ UNCHANGED <<mem, todo, committed>>
  /\ UNCHANGED <<disk, m, op, next, seen, ghost>>
Resnap == /\ pc = "resnap" /\ StartSnap(committed)
          /\ pc' = "publish"
          /\ acked' = mem /\ infl' = NoM
          /\ UNCHANGED <<log, cur, dlog, mem, m, op, next, committed, seen, todo, crashes, nops>>
NothingToReplay ==
  /\ pc = "replay" /\ todo = <<>>
  /\ pc' = "idle" /\ acked' = mem /\ infl' = NoM
  /\ UNCHANGED <<disk, mem, m, op, next, committed, seen, todo, crashes, nops, nsnap>>

Next == (\E x \in Muts : Begin(x)) \/ Prepare \/ ApplyMem \/ Commit \/ Return
        \/ Save \/ Rebuild \/ Publish \/ DropLog \/ Cleanup
        \/ Crash \/ Load \/ Replay \/ Resnap \/ NothingToReplay
Spec == Init /\ [][Next]_vars

(* ---- what must hold *)
(* Recovery never gets stuck. *)
NotStuck == pc # "stuck"
(* When the recovered state takes over it is what was acknowledged, or that  *)
(* plus the operation that was in flight.                                    *)
Recovered == (pc \in {"resnap"} \/ (pc = "replay" /\ todo = <<>>)) => mem \in {acked, Apply(acked, infl)}
(* At rest the disk alone reproduces the acknowledged state. *)
RECURSIVE Redo(_, _)
Redo(f, s) == IF s = <<>> THEN f ELSE Redo(Apply(f, Head(s).m), Tail(s))
OnDisk == Redo(snaps[cur].data, InOrder(CommittedOps(snaps[cur].through)))
DurableWhenIdle == pc = "idle" => OnDisk = acked /\ mem = acked
(* Operation numbers are never reused by a later operation of the log. *)
OpsIncrease == \A i, j \in 1..Len(Readable) :
  i < j /\ Readable[i].t = "P" /\ Readable[j].t = "P" => Readable[i].op < Readable[j].op
CurExists == cur \in DOMAIN snaps
=============================================================================

----------------------------- MODULE MCDiskColl -----------------------------
(* The flush protocol of a disk collection, file operation by file operation, *)
(* with failing operations, deaths of the process and power losses anywhere,  *)
(* against the abstract collection: published batches and pending rows.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Batches,      \* labels of batches that may be added
          Faults, Bad   \* bound on faults; which wrong design (0: the real one)
None == 0
VARIABLES dirs,      \* segment number -> [rows, synced] on disk
          listed,    \* segment numbers named by the manifest on disk
          onext,     \* next number recorded in the manifest on disk
          mlist, mnext, pend, open, pc, num,     \* the handle
          asegs, apend,                          \* the abstract collection
          faults
vars == <<dirs, listed, onext, mlist, mnext, pend, open, pc, num, asegs, apend, faults>>
disk == <<dirs, listed, onext>>
mem == <<mlist, mnext, pend, open, pc, num>>
abs == <<asegs, apend>>
Init == /\ dirs = <<>> /\ listed = <<>> /\ onext = 1 /\ mlist = <<>> /\ mnext = 1 /\ pend = None /\ open = TRUE /\ pc = "idle" /\ num = 0
        /\ asegs = <<>> /\ apend = None /\ faults = 0
On(n) == n \in DOMAIN dirs
Rows(n) == IF On(n) THEN dirs[n].rows ELSE None
Put(n, r) == [k \in DOMAIN dirs \cup {n} |-> IF k = n THEN r ELSE dirs[k]]
Flushed == {asegs[i] : i \in 1..Len(asegs)}
Idle == open /\ pc = "idle"
Add(b) == Idle /\ pend = None /\ b \notin Flushed /\ pend' = b /\ apend' = b /\ UNCHANGED <<disk, mlist, mnext, open, pc, num, asegs, faults>>
\* flush
Begin == /\ Idle /\ pend # None
         /\ IF On(mnext) THEN UNCHANGED pc ELSE pc' = "data"       \* the name is taken: refused
         /\ num' = mnext
         /\ UNCHANGED <<disk, mlist, mnext, pend, open, abs, faults>>
Data == /\ pc = "data"                      \* temporary directory written and its files synchronised
        /\ pc' = (IF Bad = 1 THEN "manifest" ELSE "rename") /\ UNCHANGED <<disk, mlist, mnext, pend, open, num, abs, faults>>
Rename == /\ pc = "rename"
          /\ dirs' = Put(num, [rows |-> pend, synced |-> Bad # 2])
          /\ pc' = "load" /\ UNCHANGED <<listed, onext, mlist, mnext, pend, open, num, abs, faults>>
Load == /\ pc = "load" /\ mnext' = num + 1
        /\ pc' = (IF Bad = 1 THEN "mem" ELSE "manifest") /\ UNCHANGED <<disk, mlist, pend, open, num, abs, faults>>
Manifest == /\ pc = "manifest"
            /\ listed' = Append(mlist, num) /\ onext' = num + 1
            /\ asegs' = Append(asegs, apend) /\ apend' = None          \* the step that publishes
            /\ pc' = (IF Bad = 1 THEN "rename" ELSE "mem") /\ UNCHANGED <<dirs, mlist, mnext, pend, open, num, faults>>
Mem == /\ pc = "mem" /\ mlist' = Append(mlist, num) /\ pend' = None /\ pc' = "idle"
       /\ UNCHANGED <<disk, mnext, open, num, abs, faults>>
\* an operation fails: the call fails and the rows stay pending
Fail == /\ pc \in {"data", "rename", "load", "manifest"} /\ faults < Faults /\ faults' = faults + 1
        /\ pc' = "idle"
        /\ mnext' = (IF pc = "load" /\ Bad # 3 THEN num + 1 ELSE mnext)    \* a published directory uses its number up
        /\ pend' = (IF Bad = 4 THEN None ELSE pend)
        /\ UNCHANGED <<disk, mlist, open, num, abs>>
Gone == open' = FALSE /\ pc' = "idle" /\ pend' = None /\ apend' = None /\ mlist' = <<>> /\ mnext' = 1 /\ num' = 0 /\ UNCHANGED asegs
Close == Idle /\ Gone /\ UNCHANGED <<disk, faults>>
Die == open /\ faults < Faults /\ faults' = faults + 1 /\ Gone /\ UNCHANGED disk
Power == /\ faults < Faults /\ faults' = faults + 1 /\ Gone
         /\ dirs' = [k \in DOMAIN dirs |-> IF dirs[k].synced THEN dirs[k] ELSE [rows |-> None, synced |-> TRUE]]
         /\ UNCHANGED <<listed, onext>>
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Reopen == /\ ~open /\ open' = TRUE /\ mlist' = listed
          /\ mnext' = (LET m == Max(DOMAIN dirs) + 1 IN IF Bad # 5 /\ m > onext THEN m ELSE onext)
          /\ UNCHANGED <<disk, pend, pc, num, abs, faults>>
Next == (\E b \in Batches : Add(b)) \/ Begin \/ Data \/ Rename \/ Load \/ Manifest \/ Mem \/ Fail \/ Close \/ Die \/ Power \/ Reopen
Spec == Init /\ [][Next]_vars

Content(s) == [i \in 1..Len(s) |-> Rows(s[i])]
\* what opening would show is the abstract collection, at every instant
Published == Content(listed) = asegs
Visible == open => (pc = "idle" => Content(mlist) = asegs /\ pend = apend)
Writable == Idle => ~On(mnext)                \* a later flush is never blocked
Once == \A i, j \in 1..Len(asegs) : i # j => asegs[i] # asegs[j]
=============================================================================

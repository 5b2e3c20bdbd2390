------------------------------ MODULE MCFileSwap ------------------------------
(* Replacing a file: the new content goes to another name in parts, is           *)
(* synchronised, takes the name over, and the directory is synchronised before   *)
(* success is reported.  Power may go at any moment; the disk then has of data   *)
(* not synchronised any part, and of names not synchronised the old or the new.  *)
EXTENDS Naturals
CONSTANTS Parts, Rounds, Bad
VARIABLES pc, ver, tmp, synced, name, pend, disk, crashed
\* a content is [v, n]: version and parts of it that are there (n = Parts: whole); name, pend: what the name
\* stands for now, and the older contents it may still stand for on disk
vars == <<pc, ver, tmp, synced, name, pend, disk, crashed>>
Whole(v) == [v |-> v, n |-> Parts]
Gone == [v |-> 0, n |-> 0]
Init == /\ pc = "idle" /\ ver = 1 /\ tmp = Gone /\ synced = TRUE /\ name = Whole(1) /\ pend = {} /\ disk = Whole(1) /\ crashed = FALSE
Live == ~crashed
Start == /\ Live /\ pc = "idle" /\ ver < Rounds /\ ver' = ver + 1 /\ pc' = "write"
         /\ IF Bad = 3 THEN name' = [v |-> ver', n |-> 0] /\ pend' = {name} /\ UNCHANGED tmp ELSE tmp' = [v |-> ver', n |-> 0] /\ UNCHANGED <<name, pend>>
         /\ synced' = FALSE /\ UNCHANGED <<disk, crashed>>
Write == /\ Live /\ pc = "write"
         /\ IF Bad = 3 THEN name.n < Parts /\ name' = [name EXCEPT !.n = @ + 1] /\ UNCHANGED tmp ELSE tmp.n < Parts /\ tmp' = [tmp EXCEPT !.n = @ + 1] /\ UNCHANGED name
         /\ UNCHANGED <<pc, ver, synced, pend, disk, crashed>>
Full == IF Bad = 3 THEN name.n = Parts ELSE tmp.n = Parts
Sync == Live /\ pc = "write" /\ Full /\ pc' = "synced" /\ synced' = (Bad # 1) /\ UNCHANGED <<ver, tmp, name, pend, disk, crashed>>
Drop == Live /\ Bad = 4 /\ pc = "synced" /\ name # Gone /\ pend' = pend \cup {name} /\ name' = Gone /\ UNCHANGED <<pc, ver, tmp, synced, disk, crashed>>
Rename == /\ Live /\ pc = "synced" /\ (Bad = 4 => name = Gone)
          /\ IF Bad = 3 THEN UNCHANGED <<name, pend>> ELSE pend' = pend \cup {name} /\ name' = tmp
          /\ pc' = IF Bad = 2 THEN "done" ELSE "renamed"
          /\ UNCHANGED <<ver, tmp, synced, disk, crashed>>
SyncDir == Live /\ pc = "renamed" /\ pend' = {} /\ pc' = "done" /\ UNCHANGED <<ver, tmp, synced, name, disk, crashed>>
Report == Live /\ pc = "done" /\ pc' = "idle" /\ UNCHANGED <<ver, tmp, synced, name, pend, disk, crashed>>
\* of a content that is not synchronised any number of parts may be there
States(c) == IF c.v = ver /\ ~synced THEN {[v |-> c.v, n |-> k] : k \in 0..c.n} ELSE {c}
Crash == /\ Live /\ crashed' = TRUE
         /\ \E c \in {name} \cup pend : disk' \in States(c)
         /\ UNCHANGED <<pc, ver, tmp, synced, name, pend>>
Next == Start \/ Write \/ Sync \/ Drop \/ Rename \/ SyncDir \/ Report \/ Crash
Spec == Init /\ [][Next]_vars
AllOrNothing == crashed => disk \in {Whole(ver), Whole(ver - 1)}
Reported == (crashed /\ pc \in {"idle", "done"}) => disk = Whole(ver)
Reader == Live => name \in {Whole(ver), Whole(ver - 1)}
===============================================================================

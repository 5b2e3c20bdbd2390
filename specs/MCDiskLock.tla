----------------------------- MODULE MCDiskLock -----------------------------
(* Creating and opening one disk collection from several processes at once,  *)
(* system call by system call: existence checks, directory, lock file,       *)
(* advisory lock, manifest; closing and dying at any point.                  *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS P, Tries, Bad
VARIABLES dir, lockf, owner, manifest, inode, pc, fd, role, tries, made, won, died, opens
vars == <<dir, lockf, owner, manifest, inode, pc, fd, role, tries, made, won, died, opens>>
\* lockf: file number under the lock's name (0: none); owner: file number -> process holding its advisory lock
Init == /\ dir = FALSE /\ lockf = 0 /\ owner = [n \in 1..(Cardinality(P) * Tries + 1) |-> 0] /\ manifest = FALSE /\ inode = 0
        /\ pc = [p \in P |-> "out"] /\ fd = [p \in P |-> 0] /\ role = [p \in P |-> "c"] /\ tries = [p \in P |-> 0]
        /\ made = 0 /\ won = 0 /\ died = 0 /\ opens = 0
Holders == {p \in P : pc[p] = "held"}
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Rest(p) == UNCHANGED <<role, tries>>
Leave(p) == /\ Go(p, "out") /\ fd' = [fd EXCEPT ![p] = 0]
            /\ owner' = [n \in DOMAIN owner |-> IF owner[n] = p THEN 0 ELSE owner[n]]
Start(p) == /\ pc[p] = "out" /\ tries[p] < Tries /\ tries' = [tries EXCEPT ![p] = @ + 1]
            /\ \E r \in {"c", "o"} : role' = [role EXCEPT ![p] = r] /\ Go(p, r \o "0") /\ opens' = opens + (IF r = "o" THEN 1 ELSE 0)
            /\ UNCHANGED <<dir, lockf, owner, manifest, inode, fd, made, won, died>>
Keep == UNCHANGED <<made, won, died, opens>>
C0(p) == pc[p] = "c0" /\ Go(p, IF dir THEN "out" ELSE "c1") /\ UNCHANGED <<dir, lockf, owner, manifest, inode, fd>> /\ Rest(p) /\ Keep
C1(p) == pc[p] = "c1" /\ dir' = TRUE /\ Go(p, "c2") /\ UNCHANGED <<lockf, owner, manifest, inode, fd>> /\ Rest(p) /\ Keep
C2(p) == /\ pc[p] = "c2"
         /\ IF lockf # 0 /\ Bad # 1 THEN Go(p, "out") /\ UNCHANGED <<lockf, inode, fd>>
            ELSE IF lockf # 0 THEN fd' = [fd EXCEPT ![p] = lockf] /\ Go(p, "c3") /\ UNCHANGED <<lockf, inode>>
            ELSE inode' = inode + 1 /\ lockf' = inode + 1 /\ fd' = [fd EXCEPT ![p] = inode + 1] /\ Go(p, "c3")
         /\ UNCHANGED <<dir, owner, manifest>> /\ Rest(p) /\ Keep
Lock(p, to) == IF owner[fd[p]] # 0 THEN Leave(p) ELSE owner' = [owner EXCEPT ![fd[p]] = p] /\ Go(p, to) /\ UNCHANGED fd
C3(p) == pc[p] = "c3" /\ Lock(p, "c4") /\ UNCHANGED <<dir, lockf, manifest, inode>> /\ Rest(p) /\ Keep
Check(p, to) == IF lockf # fd[p] THEN Leave(p) ELSE Go(p, to) /\ UNCHANGED <<fd, owner>>
C4(p) == pc[p] = "c4" /\ Check(p, "c5") /\ UNCHANGED <<dir, lockf, manifest, inode>> /\ Rest(p) /\ Keep
C5(p) == pc[p] = "c5" /\ manifest' = TRUE /\ made' = made + 1 /\ won' = won + 1 /\ Go(p, "held")
         /\ UNCHANGED <<dir, lockf, owner, inode, fd, died, opens>> /\ Rest(p)
O0(p) == pc[p] = "o0" /\ Go(p, IF dir THEN "o1" ELSE "out") /\ UNCHANGED <<dir, lockf, owner, manifest, inode, fd>> /\ Rest(p) /\ Keep
O1(p) == pc[p] = "o1" /\ Go(p, IF lockf # 0 \/ manifest THEN "o2" ELSE "out") /\ UNCHANGED <<dir, lockf, owner, manifest, inode, fd>> /\ Rest(p) /\ Keep
O2(p) == /\ pc[p] = "o2"
         /\ IF lockf = 0 THEN inode' = inode + 1 /\ lockf' = inode + 1 /\ fd' = [fd EXCEPT ![p] = inode + 1]
            ELSE fd' = [fd EXCEPT ![p] = lockf] /\ UNCHANGED <<lockf, inode>>
         /\ Go(p, IF Bad = 2 THEN "o5" ELSE "o3") /\ UNCHANGED <<dir, owner, manifest>> /\ Rest(p) /\ Keep
O3(p) == pc[p] = "o3" /\ Lock(p, "o4") /\ UNCHANGED <<dir, lockf, manifest, inode>> /\ Rest(p) /\ Keep
O4(p) == pc[p] = "o4" /\ (IF Bad = 3 THEN Go(p, "o5") /\ UNCHANGED <<fd, owner>> ELSE Check(p, "o5")) /\ UNCHANGED <<dir, lockf, manifest, inode>> /\ Rest(p) /\ Keep
O5(p) == /\ pc[p] = "o5"
         /\ IF manifest THEN Go(p, "held") /\ won' = won + 1 /\ UNCHANGED <<fd, owner>> ELSE Leave(p) /\ UNCHANGED won
         /\ UNCHANGED <<dir, lockf, manifest, inode, made, died, opens>> /\ Rest(p)
Close(p) == pc[p] = "held" /\ Leave(p) /\ lockf' = (IF Bad = 3 THEN 0 ELSE lockf) /\ UNCHANGED <<dir, manifest, inode>> /\ Rest(p) /\ Keep
Die(p) == pc[p] # "out" /\ died < 1 /\ died' = died + 1 /\ Leave(p) /\ UNCHANGED <<dir, lockf, manifest, inode, made, won, opens>> /\ Rest(p)
Next == \E p \in P : Start(p) \/ C0(p) \/ C1(p) \/ C2(p) \/ C3(p) \/ C4(p) \/ C5(p) \/ O0(p) \/ O1(p) \/ O2(p) \/ O3(p) \/ O4(p) \/ O5(p) \/ Close(p) \/ Die(p)
OneHandle == Cardinality(Holders) <= 1
OneCreation == made <= 1
\* with creators only and nobody dying, somebody gets the collection
Somebody == (\A p \in P : pc[p] = "out" /\ tries[p] > 0) /\ died = 0 /\ opens = 0 => made = 1
\* once it exists and nobody is there, the next attempt to open succeeds: nothing is left behind that prevents it
Free == (\A p \in P : pc[p] = "out") => \A n \in DOMAIN owner : owner[n] = 0
=============================================================================

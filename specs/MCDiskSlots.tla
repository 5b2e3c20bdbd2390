----------------------------- MODULE MCDiskSlots ----------------------------
(* Searches beside updates in diskann_index.hpp.  Updates run one after the  *)
(* other, a search does not wait for them: it notes the tombstones and the   *)
(* allocation counter, reads the records of the slots it may look at one by  *)
(* one, and finally looks up their labels.  An insertion takes a slot        *)
(* (hidden), writes its record, shows it; a removal hides the slot and gives *)
(* it back for reuse.  Every stored vector is a new serial number.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NSlots, Labels, MaxVec, Searchers, Bad
VARIABLES held, next, free, tomb, rec, lab, stamp, clock, up, nvec, s, sure, maybe, out
vars == <<held, next, free, tomb, rec, lab, stamp, clock, up, nvec, s, sure, maybe, out>>
Slots == 0..(NSlots - 1)
Idle == [pc |-> "idle", slot |-> 0, l |-> 0, v |-> 0]
Init ==
  /\ held = {<<CHOOSE l \in Labels : TRUE, 1>>} /\ next = 1 /\ free = <<>> /\ tomb = {} /\ rec = [x \in Slots |-> IF x = 0 THEN 1 ELSE 0]
  /\ lab = [x \in Slots |-> IF x = 0 THEN CHOOSE l \in Labels : TRUE ELSE 0]
  /\ stamp = [x \in Slots |-> 0] /\ clock = 0 /\ up = Idle /\ nvec = 1
  /\ s = [r \in Searchers |-> [pc |-> "idle", tomb |-> {}, top |-> 0, clock |-> 0, todo |-> {}, got |-> <<>>]]
  /\ sure = [r \in Searchers |-> {}] /\ maybe = [r \in Searchers |-> {}] /\ out = [r \in Searchers |-> {}]
Shown == {x \in 0..(next - 1) : x \notin tomb}
Content == {<<lab[x], rec[x]>> : x \in Shown}
\* held: the labels and vectors the user has stored; every search remembers what was held at some moment, and what all the time
Track == /\ maybe' = [r \in Searchers |-> IF s[r].pc = "idle" THEN {} ELSE maybe[r] \cup held']
         /\ sure' = [r \in Searchers |-> IF s[r].pc = "idle" THEN {} ELSE sure[r] \cap held']
Alloc(l) ==
  /\ up.pc = "idle" /\ nvec < MaxVec /\ l \notin {p[1] : p \in held} /\ (free # <<>> \/ next < NSlots)
  /\ LET x == IF free # <<>> THEN free[Len(free)] ELSE next
     IN /\ free' = (IF free # <<>> THEN SubSeq(free, 1, Len(free) - 1) ELSE free)
        /\ next' = (IF free # <<>> THEN next ELSE next + 1)
        /\ tomb' = (IF Bad = 4 THEN tomb \ {x} ELSE tomb \cup {x})
        /\ lab' = [lab EXCEPT ![x] = l]
        /\ clock' = (IF Bad = 5 THEN clock ELSE clock + 1) /\ stamp' = (IF Bad = 5 THEN stamp ELSE [stamp EXCEPT ![x] = clock + 1])
        /\ nvec' = nvec + 1
        /\ up' = [pc |-> IF Bad = 2 THEN "show" ELSE "write", slot |-> x, l |-> l, v |-> nvec + 1]
  /\ UNCHANGED <<held, rec, s, out>> /\ Track
Write ==
  /\ up.pc = "write"
  /\ rec' = [rec EXCEPT ![up.slot] = up.v]
  /\ up' = (IF Bad = 2 THEN Idle ELSE [up EXCEPT !.pc = "show"])
  /\ UNCHANGED <<held, next, free, tomb, lab, stamp, clock, nvec, s, out>> /\ Track
Show ==
  /\ up.pc = "show"
  /\ tomb' = tomb \ {up.slot} /\ held' = held \cup {<<up.l, up.v>>}
  /\ clock' = (IF Bad = 5 THEN clock + 1 ELSE clock) /\ stamp' = (IF Bad = 5 THEN [stamp EXCEPT ![up.slot] = clock + 1] ELSE stamp)
  /\ up' = (IF Bad = 2 THEN [up EXCEPT !.pc = "write"] ELSE Idle)
  /\ UNCHANGED <<next, free, rec, lab, nvec, s, out>> /\ Track
Remove(x) ==
  /\ up.pc = "idle" /\ \E p \in held : p[1] = lab[x] /\ x \in Shown /\ held' = held \ {p}
  /\ tomb' = (IF Bad = 3 THEN tomb ELSE tomb \cup {x}) /\ free' = Append(free, x)
  /\ UNCHANGED <<next, rec, lab, stamp, clock, up, nvec, s, out>> /\ Track
Begin(r) ==
  /\ s[r].pc = "idle"
  /\ s' = [s EXCEPT ![r] = [pc |-> "read", tomb |-> tomb, top |-> next, clock |-> clock, todo |-> {x \in 0..(next - 1) : x \notin tomb}, got |-> <<>>]]
  /\ sure' = [sure EXCEPT ![r] = held] /\ maybe' = [maybe EXCEPT ![r] = held] /\ out' = [out EXCEPT ![r] = {}]
  /\ UNCHANGED <<held, next, free, tomb, rec, lab, stamp, clock, up, nvec>>
Read(r) ==
  /\ s[r].pc = "read" /\ s[r].todo # {}
  /\ \E x \in s[r].todo : s' = [s EXCEPT ![r].todo = @ \ {x}, ![r].got = (x :> rec[x]) @@ @]
  /\ UNCHANGED <<held, next, free, tomb, rec, lab, stamp, clock, up, nvec, sure, maybe, out>>
Finish(r) ==
  /\ s[r].pc = "read" /\ s[r].todo = {}
  /\ LET keep == {x \in DOMAIN s[r].got : CASE Bad = 1 -> TRUE [] Bad = 6 -> stamp[x] < s[r].clock [] OTHER -> stamp[x] <= s[r].clock}
     IN out' = [out EXCEPT ![r] = {<<lab[x], s[r].got[x]>> : x \in keep}]
  /\ s' = [s EXCEPT ![r].pc = "done"]
  /\ UNCHANGED <<held, next, free, tomb, rec, lab, stamp, clock, up, nvec, sure, maybe>>
Again(r) == /\ s[r].pc = "done" /\ s' = [s EXCEPT ![r] = [pc |-> "idle", tomb |-> {}, top |-> 0, clock |-> 0, todo |-> {}, got |-> <<>>]]
            /\ sure' = [sure EXCEPT ![r] = {}] /\ maybe' = [maybe EXCEPT ![r] = {}] /\ out' = [out EXCEPT ![r] = {}]
            /\ UNCHANGED <<held, next, free, tomb, rec, lab, stamp, clock, up, nvec>>
Next == \/ \E l \in Labels : Alloc(l)
        \/ Write \/ Show
        \/ \E x \in Slots : Remove(x)
        \/ \E r \in Searchers : Begin(r) \/ Read(r) \/ Finish(r) \/ Again(r)
Spec == Init /\ [][Next]_vars
Sound == \A r \in Searchers : s[r].pc = "done" => out[r] \subseteq maybe[r]
Complete == \A r \in Searchers : s[r].pc = "done" => sure[r] \subseteq out[r]
OneSlotPerLabel == \A x, y \in Shown : lab[x] = lab[y] => x = y
Agrees == up.pc = "idle" => held = Content
NoStale == \A x \in Shown : rec[x] # 0
=============================================================================

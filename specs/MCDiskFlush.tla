----------------------------- MODULE MCDiskFlush ----------------------------
(* Where a record of the updatable disk index can be: in the hot copies read *)
(* at opening (some slots, saved in a file of their own), in an override in  *)
(* memory, in a page of the write cache, in the file.  A search looks in     *)
(* this order; flush writes the pages, drops overrides of slots that are not *)
(* hot, and saves the hot copies, the labels and the slot table.  Opening    *)
(* after a flush must show what was there before.                            *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NSlots, Hot, MaxVal, Bad
VARIABLES held, memlab, memfree, hotmem, over, page, disk, hotdisk, disklab, diskfree, clean, nval, open
vars == <<held, memlab, memfree, hotmem, over, page, disk, hotdisk, disklab, diskfree, clean, nval, open>>
Slots == 1..NSlots
None == 0
Init ==
  /\ held = [x \in Slots |-> IF x = 1 THEN 1 ELSE None]
  /\ memlab = held /\ disklab = held /\ memfree = <<>> /\ diskfree = <<>>
  /\ disk = held /\ hotdisk = [x \in Hot |-> held[x]] /\ hotmem = hotdisk
  /\ over = [x \in Slots |-> None] /\ page = [x \in Slots |-> None] /\ clean = TRUE /\ nval = 1 /\ open = TRUE
Seen(x) == IF x \in Hot /\ hotmem[x] # None THEN hotmem[x] ELSE IF over[x] # None THEN over[x] ELSE disk[x]
View == [x \in Slots |-> IF memlab[x] = None THEN None ELSE Seen(x)]
Put(x, v) ==
  /\ hotmem' = [y \in Hot |-> IF y = x THEN v ELSE hotmem[y]]
  /\ over' = [over EXCEPT ![x] = IF x \in Hot THEN @ ELSE v]
  /\ page' = [page EXCEPT ![x] = v]
Top == Cardinality({x \in Slots : memlab[x] # None \/ \E k \in 1..Len(memfree) : memfree[k] = x})
Insert ==
  /\ open /\ nval < MaxVal /\ (memfree # <<>> \/ Top < NSlots)
  /\ LET x == IF memfree # <<>> THEN memfree[Len(memfree)] ELSE Top + 1
     IN Put(x, nval + 1) /\ memlab' = [memlab EXCEPT ![x] = nval + 1] /\ held' = [held EXCEPT ![x] = nval + 1]
  /\ memfree' = (IF memfree # <<>> THEN SubSeq(memfree, 1, Len(memfree) - 1) ELSE memfree)
  /\ nval' = nval + 1 /\ clean' = FALSE /\ UNCHANGED <<disk, hotdisk, disklab, diskfree, open>>
Remove(x) ==
  /\ open /\ held[x] # None
  /\ held' = [held EXCEPT ![x] = None] /\ memlab' = [memlab EXCEPT ![x] = None] /\ memfree' = Append(memfree, x)
  /\ clean' = FALSE /\ UNCHANGED <<hotmem, over, page, disk, hotdisk, disklab, diskfree, nval, open>>
\* the cache may write a page back at any time
WriteBack(x) ==
  /\ open /\ page[x] # None /\ disk' = [disk EXCEPT ![x] = page[x]] /\ page' = [page EXCEPT ![x] = None]
  /\ UNCHANGED <<held, memlab, memfree, hotmem, over, hotdisk, disklab, diskfree, clean, nval, open>>
FlushPages ==
  /\ open
  /\ IF Bad = 2 THEN UNCHANGED <<disk, page>> ELSE disk' = [x \in Slots |-> IF page[x] # None THEN page[x] ELSE disk[x]] /\ page' = [x \in Slots |-> None]
  /\ over' = [x \in Slots |-> None]
  /\ UNCHANGED <<held, memlab, memfree, hotmem, hotdisk, disklab, diskfree, clean, nval, open>>
Flush ==
  /\ open
  /\ disk' = (IF Bad = 5 THEN disk ELSE [x \in Slots |-> IF page[x] # None THEN page[x] ELSE disk[x]])
  /\ page' = (IF Bad = 5 THEN page ELSE [x \in Slots |-> None]) /\ over' = (IF Bad = 5 THEN over ELSE [x \in Slots |-> None])
  /\ hotdisk' = (IF Bad = 1 THEN hotdisk ELSE hotmem)
  /\ disklab' = (IF Bad = 3 THEN disklab ELSE memlab) /\ diskfree' = (IF Bad = 4 THEN diskfree ELSE memfree)
  /\ clean' = TRUE /\ UNCHANGED <<held, memlab, memfree, hotmem, nval, open>>
Close == /\ open /\ clean /\ open' = FALSE /\ UNCHANGED <<held, memlab, memfree, hotmem, over, page, disk, hotdisk, disklab, diskfree, clean, nval>>
Open ==
  /\ ~open /\ open' = TRUE /\ memlab' = disklab /\ memfree' = diskfree /\ hotmem' = hotdisk
  /\ over' = [x \in Slots |-> None] /\ page' = [x \in Slots |-> None]
  /\ UNCHANGED <<held, disk, hotdisk, disklab, diskfree, clean, nval>>
Next == Insert \/ (\E x \in Slots : Remove(x) \/ WriteBack(x)) \/ FlushPages \/ Flush \/ Close \/ Open
Spec == Init /\ [][Next]_vars
Right == open => View = held
Room == open => \A x \in Slots : held[x] = None => (x > Top \/ \E k \in 1..Len(memfree) : memfree[k] = x)
=============================================================================

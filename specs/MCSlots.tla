------------------------------- MODULE MCSlots -------------------------------
(* Slot allocator and deletion marks at the grain of single memory           *)
(* operations: marks live in chunks that appear on demand (compare and swap),*)
(* a mark changes by one atomic or/and on its word, the count follows in a   *)
(* separate step, readers take no lock.                                      *)
(*   Locked = TRUE:  writers are alloc/publish/free under the update lock.   *)
(*   Locked = FALSE: writers set and clear marks of their own, unlocked.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Locked, Writers, Readers, Ops, N0, MaxId, Bad
VARIABLES lock, fl, nxt, tab, mem, made, count, cap, pc, reg, left, own, hid, val
vars == <<lock, fl, nxt, tab, mem, made, count, cap, pc, reg, left, own, hid, val>>
Ids == 0..MaxId
CB == 2                       \* marks per chunk
ChunkOf(id) == id \div CB
NChunks == MaxId \div CB + 1
Null == 0
Wr == 1..Writers
Rd == (Writers + 1)..(Writers + Readers)
Th == Wr \cup Rd
Zero == [b \in 0..(CB - 1) |-> FALSE]
Init ==
  /\ lock = 0 /\ fl = <<>> /\ nxt = N0
  /\ made = (IF N0 = 0 THEN 0 ELSE ChunkOf(N0 - 1) + 1)
  /\ tab = [c \in 0..(NChunks - 1) |-> IF c < made THEN c + 1 ELSE Null]
  /\ mem = [m \in 1..(NChunks + Writers) |-> Zero]
  /\ count = 0 /\ cap = made * CB
  /\ pc = [t \in Th |-> "idle"]
  /\ reg = [t \in Th |-> [op |-> "", id |-> 0, ch |-> Null, old |-> FALSE, word |-> Zero, exp |-> FALSE, stable |-> FALSE]]
  /\ left = [t \in Th |-> Ops]
  /\ own = [k \in Ids |-> IF Locked /\ k < N0 THEN 1 ELSE 0]
  /\ hid = {} /\ val = [k \in Ids |-> FALSE]
\* readers watching a mark that somebody starts to change may see either value
Unsettle(r, id) == [t \in Th |-> IF t \in Rd /\ r[t].id = id THEN [r[t] EXCEPT !.stable = FALSE] ELSE r[t]]
Begin(t, op, id) ==
  /\ reg' = [Unsettle(reg, id) EXCEPT ![t] = [op |-> op, id |-> id, ch |-> Null, old |-> FALSE, word |-> Zero, exp |-> FALSE, stable |-> FALSE]]
  /\ pc' = [pc EXCEPT ![t] = IF Bad = 3 /\ op = "alloc" THEN "done" ELSE "load"]
  /\ left' = [left EXCEPT ![t] = @ - 1]
StartLocked(t) ==
  /\ Locked /\ pc[t] = "idle" /\ left[t] > 0 /\ lock = 0
  /\ lock' = t
  /\ \/ /\ IF fl # <<>> THEN \E id \in {fl[Len(fl)]} : Begin(t, "alloc", id) /\ fl' = Front(fl) /\ nxt' = nxt /\ own' = own
           ELSE nxt <= MaxId /\ Begin(t, "alloc", nxt) /\ nxt' = nxt + 1 /\ fl' = fl /\ own' = own
     \/ \E id \in {k \in Ids : own[k] = t} : Begin(t, "publish", id) /\ UNCHANGED <<fl, nxt, own>>
     \/ \E id \in {k \in Ids : own[k] = t} : Begin(t, "free", id) /\ fl' = Append(fl, id) /\ own' = [own EXCEPT ![id] = 0] /\ UNCHANGED nxt
  /\ hid' = (IF reg'[t].op = "publish" THEN hid \ {reg'[t].id} ELSE hid)
  /\ UNCHANGED <<tab, mem, made, count, cap, val>>
\* saving and loading happen with everything else at rest
Reload(t) ==
  /\ Locked /\ lock = 0 /\ left[t] > 0 /\ \A x \in Th : pc[x] = "idle"
  /\ fl' = (IF Bad = 4 THEN <<>> ELSE fl)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<lock, nxt, tab, mem, made, count, cap, pc, reg, own, hid, val>>
StartFree(t) ==
  /\ ~Locked /\ pc[t] = "idle" /\ left[t] > 0
  /\ \E id \in {k \in Ids : (k % Writers) + 1 = t}, op \in {"set", "clear"} : Begin(t, op, id)
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, own, hid, val>>
Setting(t) == reg[t].op \in {"alloc", "free", "set"}
Load(t) ==
  /\ pc[t] = "load"
  /\ reg' = [reg EXCEPT ![t].ch = tab[ChunkOf(reg[t].id)]]
  /\ pc' = [pc EXCEPT ![t] = IF tab[ChunkOf(reg[t].id)] # Null THEN "change" ELSE IF Setting(t) THEN "install" ELSE "done"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, left, own, hid, val>>
Install(t) ==
  /\ pc[t] = "install"
  /\ LET c == ChunkOf(reg[t].id)  IN
     IF tab[c] = Null \/ Bad = 2
     THEN /\ made < NChunks + Writers
          /\ made' = made + 1 /\ tab' = [tab EXCEPT ![c] = made + 1] /\ reg' = [reg EXCEPT ![t].ch = made + 1]
          /\ pc' = [pc EXCEPT ![t] = "grow"]
     ELSE made' = made /\ tab' = tab /\ reg' = [reg EXCEPT ![t].ch = tab[c]] /\ pc' = [pc EXCEPT ![t] = "change"]
  /\ UNCHANGED <<lock, fl, nxt, mem, count, cap, left, own, hid, val>>
Grow(t) ==
  /\ pc[t] = "grow"
  /\ cap' = (IF cap < (ChunkOf(reg[t].id) + 1) * CB THEN (ChunkOf(reg[t].id) + 1) * CB ELSE cap)
  /\ pc' = [pc EXCEPT ![t] = "change"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, reg, left, own, hid, val>>
Bit(t) == reg[t].id % CB
Change(t) ==
  /\ pc[t] = "change"
  /\ IF Bad = 1
     THEN reg' = [reg EXCEPT ![t].word = mem[reg[t].ch], ![t].old = mem[reg[t].ch][Bit(t)]] /\ pc' = [pc EXCEPT ![t] = "store"] /\ mem' = mem
     ELSE /\ reg' = [reg EXCEPT ![t].old = mem[reg[t].ch][Bit(t)]]
          /\ mem' = [mem EXCEPT ![reg[t].ch][Bit(t)] = Setting(t)]
          /\ pc' = [pc EXCEPT ![t] = "count"]
  /\ UNCHANGED <<lock, fl, nxt, tab, made, count, cap, left, own, hid, val>>
Store(t) ==
  /\ pc[t] = "store"
  /\ mem' = [mem EXCEPT ![reg[t].ch] = [reg[t].word EXCEPT ![Bit(t)] = Setting(t)]]
  /\ pc' = [pc EXCEPT ![t] = "count"]
  /\ UNCHANGED <<lock, fl, nxt, tab, made, count, cap, reg, left, own, hid, val>>
Count(t) ==
  /\ pc[t] = "count"
  /\ count' = (IF Setting(t) /\ ~reg[t].old THEN count + 1 ELSE IF ~Setting(t) /\ reg[t].old THEN count - 1 ELSE count)
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, cap, reg, left, own, hid, val>>
Done(t) ==
  /\ pc[t] = "done" /\ t \in Wr
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ val' = [val EXCEPT ![reg[t].id] = Setting(t)]
  /\ hid' = (IF reg[t].op \in {"alloc", "free"} THEN hid \cup {reg[t].id} ELSE hid)
  /\ own' = (IF reg[t].op = "alloc" THEN [own EXCEPT ![reg[t].id] = t] ELSE own)
  /\ lock' = (IF Locked THEN 0 ELSE lock)
  /\ UNCHANGED <<fl, nxt, tab, mem, made, count, cap, left>>
  \* a reader that began during the change is not held to the outcome
  /\ reg' = Unsettle(reg, reg[t].id)
StartRead(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E id \in Ids :
       reg' = [reg EXCEPT ![t] = [op |-> "read", id |-> id, ch |-> Null, old |-> FALSE, word |-> Zero, exp |-> val[id],
                                  stable |-> ~ \E w \in Wr : pc[w] # "idle" /\ reg[w].id = id]]
  /\ pc' = [pc EXCEPT ![t] = "rload"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, own, hid, val>>
ReadChunk(t) ==
  /\ pc[t] = "rload"
  /\ reg' = [reg EXCEPT ![t].ch = tab[ChunkOf(reg[t].id)]]
  /\ pc' = [pc EXCEPT ![t] = "rbit"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, left, own, hid, val>>
ReadBit(t) ==
  /\ pc[t] = "rbit"
  /\ reg' = [reg EXCEPT ![t].old = IF reg[t].ch = Null THEN FALSE ELSE mem[reg[t].ch][Bit(t)]]
  /\ pc' = [pc EXCEPT ![t] = "rseen"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, left, own, hid, val>>
EndRead(t) ==
  /\ pc[t] = "rseen" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<lock, fl, nxt, tab, mem, made, count, cap, reg, left, own, hid, val>>
Next ==
  \/ \E t \in Wr : StartLocked(t) \/ Reload(t) \/ StartFree(t) \/ Load(t) \/ Install(t) \/ Grow(t) \/ Change(t) \/ Store(t) \/ Count(t) \/ Done(t)
  \/ \E t \in Rd : StartRead(t) \/ ReadChunk(t) \/ ReadBit(t) \/ EndRead(t)
Spec == Init /\ [][Next]_vars
Marked(id) == tab[ChunkOf(id)] # Null /\ mem[tab[ChunkOf(id)]][id % CB]
Quiet == \A t \in Wr : pc[t] = "idle"
(* Nobody is handed a slot that another holds or that is still free.         *)
Exclusive == \A t \in Wr : pc[t] # "idle" /\ reg[t].op = "alloc" => own[reg[t].id] = 0 /\ reg[t].id \notin ToSet(fl)
FreeOnce == Len(fl) = Cardinality(ToSet(fl)) /\ \A k \in ToSet(fl) : own[k] = 0
(* Nothing is lost: at rest every slot below the end is held or free.        *)
NothingLost == Locked /\ Quiet => \A k \in Ids : k < nxt => (own[k] # 0 \/ k \in ToSet(fl))
HiddenMarked == \A k \in hid : (\A t \in Wr : pc[t] = "idle" \/ reg[t].id # k) => Marked(k)
MarksExact == Quiet => \A k \in Ids : Marked(k) = val[k]
CountExact == Quiet => count = Cardinality({k \in Ids : Marked(k)})
CapCovers == Quiet => \A k \in Ids : Marked(k) => cap > k
ReadRight == \A t \in Rd : pc[t] = "rseen" /\ reg[t].stable => reg[t].old = reg[t].exp
=============================================================================

------------------------------- MODULE MCCands -------------------------------
(* The sorted array with a cursor, the epoch-stamped marks and the bit words   *)
(* with a list of dirty words, as built, against the abstract list and set.    *)
(* Bad: 1 cursor not lowered when a nearer candidate enters before it,         *)
(* 2 a full list makes room without comparing with its last entry, 3 marks not *)
(* wiped when the epoch wraps, 4 a word dirtied by test-and-set not recorded,  *)
(* 5 a duplicate looked for by distance alone.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Bad, Cap, MaxD, Ids, MaxOps, Dedup, Epochs, Width, Positions
VARIABLES arr,      \* the array: [n, id, d, x]
          cur,      \* cursor, 1-based; Len(arr) + 1 when nothing is left
          held, cnt,
          tags, epoch, words, dirty, members
lvars == <<arr, cur, held, cnt>>
svars == <<tags, epoch, words, dirty, members>>
vars == <<lvars, svars>>
DistOf(id) == id % (MaxD + 1)                 \* for the deduplicating list: an id has one distance
Less(a, b) == a.d < b.d \/ (Dedup /\ a.d = b.d /\ a.id < b.id)
\* first position whose entry is after the new one
Place(e) == IF \E k \in 1..Len(arr) : Less(e, arr[k]) THEN CHOOSE k \in 1..Len(arr) : Less(e, arr[k]) /\ \A j \in 1..k-1 : ~Less(e, arr[j]) ELSE Len(arr) + 1
Known(e) == IF Bad = 5 THEN \E k \in 1..Len(arr) : arr[k].id = e.id /\ \A j \in 1..Len(arr) : arr[j].d = e.d => j = k
            ELSE \E k \in 1..Len(arr) : arr[k].id = e.id
InsertAt(s, p, e) == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s))
Worst == {e \in held : \A f \in held : ~Less(e, f)}
\* Abstract insertion: the set of allowed results.
AbsInsert(e) ==
  IF Dedup /\ (\E f \in held : f.id = e.id) THEN {held}
  ELSE IF Cardinality(held) < Cap THEN {held \cup {e}}
  ELSE {held : w \in {w \in Worst : ~Less(e, w)}} \cup {(held \ {w}) \cup {e} : w \in {w \in Worst : ~Less(w, e)}}
Insert(id, d) ==
  /\ cnt < MaxOps
  /\ cnt' = cnt + 1
  /\ LET e == [n |-> cnt, id |-> id, d |-> d, x |-> FALSE]
         refused == (Dedup /\ Known(e)) \/ (Len(arr) = Cap /\ Bad # 2 /\ ~Less(e, arr[Cap]))
         p == IF Bad = 2 /\ Len(arr) = Cap THEN (IF Place(e) > Cap THEN Cap ELSE Place(e)) ELSE Place(e)
         full == InsertAt(arr, p, e)
         next == IF Len(full) > Cap THEN SubSeq(full, 1, Cap) ELSE full
         got == {next[k] : k \in 1..Len(next)}
         allowed == AbsInsert(e)
     IN IF refused THEN UNCHANGED <<arr, cur>> /\ held' = IF held \in allowed THEN held ELSE CHOOSE h \in allowed : TRUE
        ELSE /\ arr' = next
             /\ cur' = IF p < cur /\ Bad # 1 THEN p ELSE cur
             /\ held' = IF got \in allowed THEN got ELSE CHOOSE h \in allowed : TRUE
  /\ UNCHANGED svars
Pop ==
  /\ cur <= Len(arr)
  /\ cnt < MaxOps /\ cnt' = cnt + 1
  /\ arr' = [arr EXCEPT ![cur].x = TRUE]
  /\ held' = {[e EXCEPT !.x = IF e.n = arr[cur].n THEN TRUE ELSE e.x] : e \in held}
  /\ LET later == {k \in cur+1..Len(arr) : ~arr[k].x} IN cur' = IF later = {} THEN Len(arr) + 1 ELSE CHOOSE k \in later : \A j \in later : k <= j
  /\ UNCHANGED svars
-----------------------------------------------------------------------------
WordOf(p) == p \div Width
SetBit(p, record) ==
  /\ cnt < MaxOps /\ cnt' = cnt + 1
  /\ tags' = [tags EXCEPT ![p] = epoch]
  /\ dirty' = IF words[WordOf(p)] = {} /\ record THEN dirty \cup {WordOf(p)} ELSE dirty
  /\ words' = [words EXCEPT ![WordOf(p)] = @ \cup {p}]
  /\ members' = members \cup {p}
  /\ UNCHANGED <<epoch, arr, cur, held>>
Clear ==
  /\ cnt < MaxOps /\ cnt' = cnt + 1
  /\ LET e == (epoch + 1) % Epochs IN
       IF e = 0 THEN epoch' = 1 /\ tags' = IF Bad = 3 THEN tags ELSE [p \in DOMAIN tags |-> 0]
       ELSE epoch' = e /\ UNCHANGED tags
  /\ words' = [w \in DOMAIN words |-> IF w \in dirty THEN {} ELSE words[w]]
  /\ dirty' = {} /\ members' = {}
  /\ UNCHANGED <<arr, cur, held>>
Init == arr = <<>> /\ cur = 1 /\ held = {} /\ cnt = 0 /\ tags = [p \in 0..Positions-1 |-> 0] /\ epoch = 1
        /\ words = [w \in 0..(Positions-1) \div Width |-> {}] /\ dirty = {} /\ members = {}
Next == \/ \E id \in Ids : \E d \in (IF Dedup THEN {DistOf(id)} ELSE 0..MaxD) : Insert(id, d)
        \/ Pop
        \/ (Positions > 0 /\ \E p \in 0..Positions-1 : SetBit(p, TRUE) \/ SetBit(p, Bad # 4))
        \/ (Positions > 0 /\ Clear)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ents == {arr[k] : k \in 1..Len(arr)}
Agrees == Cardinality(Ents) = Len(arr) /\ Ents = held
Sorted == \A k \in 2..Len(arr) : ~Less(arr[k], arr[k-1])
Distinct == Dedup => \A e, f \in held : e.id = f.id => e = f
\* the cursor stands at the first entry not expanded
Cursor == LET open == {k \in 1..Len(arr) : ~arr[k].x} IN
          IF open = {} THEN cur = Len(arr) + 1 ELSE cur \in open /\ \A k \in open : cur <= k
Marks == \A p \in DOMAIN tags : (tags[p] = epoch) = (p \in members)
Words == \A p \in DOMAIN tags : (p \in words[WordOf(p)]) = (p \in members)
=============================================================================
